S = "kaminpar-shm/"
C = "kaminpar-common/"
D = "kaminpar-dist/"

prop("C01", "A computed partition is complete, in range, and scored with its true edge cut",
     "For every undirected graph, number of blocks, imbalance, preset, seed, thread count and graph representation, computing a partition terminates and assigns every vertex exactly one block id in [0, k). The returned value equals the total weight of the edges whose endpoints received different blocks in the caller's original vertex numbering. A caller's graph that was only borrowed or copied is not modified by the call unless borrowing allows it.",
     ["inputs", "configurations"], "all small graphs (with isolated vertices, disconnected, weighted), k from 1 to more than n, all presets, both graph representations",
     "The end-to-end tests partition one fixed mesh with the default preset; the quantifier over graphs, weights and presets is untouched.",
     [S + "kaminpar.cc", S + "partitioning/deep/deep_multilevel.cc", S + "partitioning/kway/kway_multilevel.cc", S + "partitioning/rb/rb_multilevel.cc", S + "factories.cc"],
     [("facade computes, un-permutes and copies the partition", S + "kaminpar.cc"), ("multilevel partitioners", S + "partitioning/")],
     observe=["return value and output array of compute_partition"])

prop("C02", "Every computed partition respects the balance constraint",
     "For graphs with unit vertex weights and every configuration whose k-way refinement includes a balancer (all presets except noref and restricted-vcycle), every returned partition assigns each block a total vertex weight of at most (1 + eps) * ceil(total weight / k), rounded down to an integer but never below ceil(total weight / k). If the caller supplies absolute or relative maximum block weights that admit a perfectly balanced assignment of unit-weight vertices, every block obeys its own maximum. Isolated vertices count towards their block's weight like all other vertices.",
     ["inputs", "configurations"], "all small unit-weight graphs and structured families, k, eps including 0.0, all presets, uniform and per-block limits",
     "Balance is asserted for one mesh and a few k; the interplay of isolated vertices, extension of k and rebalancing depends on input and configuration.",
     [S + "kaminpar.cc", S + "kaminpar.h", S + "refinement/balancer/greedy_balancer.cc", S + "partitioning/partition_utils.cc", S + "partitioning/helper.cc"],
     [("maximum block weights set up from eps", S + "kaminpar.h"), ("rebalancing at every level", S + "refinement/")],
     observe=["block weights of the output array"])

prop("C03", "Thread interleavings never corrupt a partitioning run",
     "However the worker threads of one partitioning call interleave and however parallel work is divided among them, the call terminates and returns a complete partition with block ids in range, whose returned cut matches the output and which obeys the balance constraint on unit-weight graphs (for configurations with a balancer).",
     ["schedules", "inputs"], "all divisions of parallel loops from a menu and all thread interleavings up to a preemption bound on small graphs",
     "Tests run a handful of uncontrolled schedules.",
     [S + "kaminpar.cc", S + "label_propagation.h", S + "coarsening/", S + "refinement/", S + "partitioning/deep/"],
     [("atomics and per-thread state in every parallel phase", S)], observe=["return value and output array of compute_partition"])

prop("C04", "A partitioner object can be reused in any order of calls",
     "For any sequence of setting graphs, changing seeds and computing partitions with different numbers of blocks, imbalances or block-weight limits on one partitioner object, every result satisfies the guarantees for the graph and parameters of that call, regardless of earlier calls. After reseeding with a fixed seed, a single-threaded instance that replays the same graph and parameters returns the same partition as a fresh instance would, and borrowed or copied input arrays keep describing the same graph.",
     ["histories", "inputs"], "all call sequences up to a depth over a small alphabet of graphs, seeds, k, eps and limit styles",
     "The tests use a fresh instance per call or one fixed sequence.",
     [S + "kaminpar.cc", S + "kaminpar.h"], [("per-call setup of the partition context, removal and re-integration of isolated vertices", S + "kaminpar.cc")],
     state=[("current graph", "graph owned by the instance, rearranged and with isolated vertices temporarily removed", S + "kaminpar.cc")],
     observe=["return value and output array of each call"])

prop("C05", "Single-threaded runs are reproducible from the seed",
     "With one thread, two runs with the same graph, parameters, preset and seed produce bit-identical partitions, independent of what other partitioners were created or ran before in the process. The result does not depend on timing, memory addresses or memory contents.",
     ["inputs", "configurations", "histories"], "all presets, small graphs, seeds, different preceding work in the process and different heap contents",
     "The existing determinism checks compare a few seeds on one graph back to back.",
     [C + "random.h", C + "random.cc", S + "kaminpar.cc"], [("one seeded generator per thread, reset by reseed", C + "random.cc")], observe=["output arrays of two runs"])

prop("C06", "Compressing a graph loses nothing",
     "For every graph, weights and adjacency order, the compressed representation has the same number of vertices and edges, the same degrees, vertex weights and total weights as the input, and enumerating the neighbours of any vertex yields exactly the input's neighbours with their edge weights; enumeration limited to a prefix or stopped early visits exactly as many neighbours as requested. This holds for every way of building it (sequential, parallel, from a stream of vertices, single pass), and decompressing reproduces the original graph.",
     ["inputs", "schedules", "configurations"], "all small neighbourhood shapes relative to the interval and high-degree thresholds, all weights up to byte-width boundaries, all builders and schedules",
     "The tests compress a few hand-made graphs, none near the high-degree threshold.",
     [C + "graph_compression/compressed_edges_builder.h", C + "graph_compression/compressed_neighborhoods.h", C + "graph_compression/compressed_neighborhoods_builder.h", S + "datastructures/compressed_graph.h", S + "graphutils/parallel_compressed_graph_builder.h", S + "graphutils/compressed_graph_builder.cc"],
     [("gap, interval and part encoding with matching decoder", C + "graph_compression/")], observe=["adjacent_nodes and accessors of the compressed graph"])

prop("C07", "Variable-length integer codecs are exact inverses",
     "Every unsigned, marked and signed variable-length encoding decodes to the value (and mark) that was encoded, occupies exactly the announced number of bytes, and leaves the read or write position exactly behind it. Every StreamVByte stream (plain for 32- and 64-bit integers, differentially coded for 32-bit integers) decodes to the encoded sequence, including when decoding stops early.",
     ["inputs"], "all values of the integer types; all sequences of byte widths",
     "Tests try a few dozen values; lengths of 3, 5, 6 and 7 bytes never occur in the 64-bit stream test.",
     [C + "graph_compression/varint.h", C + "graph_compression/streamvbyte.h"], [("7-bit groups with continuation bits; control bytes", C + "graph_compression/")], observe=["decode functions"])

prop("C08", "Reordering and isolated-vertex removal only relabel the graph",
     "Rearranging a graph by degree buckets or by any vertex permutation yields the same weighted graph under the reported vertex mapping, and the mapping is a bijection. Removing isolated vertices and integrating them again restores the original counts and weights, and translating a partition back through the mapping gives each original vertex the block of its image. Once its isolated vertices are removed, the degree buckets of a rearranged graph cover its vertices in ascending order with exactly the vertices of each degree class.",
     ["inputs", "schedules"], "all small graphs with all weightings, all vertex permutations, all interleavings up to a bound",
     "Two hand-written graphs are permuted in the tests.",
     [S + "graphutils/permutator.h", S + "graphutils/permutator.cc", S + "datastructures/csr_graph.cc", S + "kaminpar.cc"],
     [("counting sort by degree bucket, per-thread prefix sums", S + "graphutils/permutator.h")], observe=["rearranged graph, mapping arrays, bucket accessors"])

prop("C09", "Block-induced subgraphs are exact and partition back losslessly",
     "Extracting the block-induced subgraphs of a partitioned graph yields, for every block, precisely its vertices with their weights and precisely the edges inside the block with their weights, each vertex appearing in exactly one subgraph under the reported mapping. Copying partitions of the subgraphs back gives every vertex the block determined by its subgraph's result and assigns disjoint ranges of block ids to different subgraphs.",
     ["inputs", "schedules"], "all small graphs and partitions (including empty blocks), all extraction strategies, all interleavings up to a bound",
     "Tests extract from a few hand-made partitions.",
     [S + "graphutils/subgraph_extractor.cc", S + "graphutils/subgraph_extractor.h", S + "partitioning/helper.cc"],
     [("per-block offsets and compacted copies", S + "graphutils/subgraph_extractor.cc")], observe=["subgraphs, mapping, copied-back partition"])

prop("C10", "Contracting a clustering yields the exact quotient graph",
     "For every graph and every assignment of vertices to clusters, each contraction algorithm produces a coarse graph with one vertex per non-empty cluster weighing the sum of its members, and for every pair of distinct clusters one edge in each direction weighing the sum of all fine edges between them, with no self-loops and no duplicate edges. Projecting any coarse partition back gives each fine vertex the block of its coarse vertex, so cut and block weights are preserved.",
     ["inputs", "schedules", "configurations"], "all small graphs and all set partitions of their vertices, all algorithms and edge-buffer settings, all interleavings up to a bound",
     "Tests contract five tiny graphs with fixed clusterings.",
     [S + "coarsening/contraction/buffered_cluster_contraction.cc", S + "coarsening/contraction/unbuffered_cluster_contraction.cc", S + "coarsening/contraction/naive_unbuffered_cluster_contraction.cc", S + "coarsening/contraction/legacy_buffered_cluster_contraction.cc", S + "coarsening/contraction/cluster_contraction_preprocessing.cc"],
     [("leader mapping, bucket sort, per-cluster edge aggregation", S + "coarsening/contraction/")], observe=["coarse graph, projection"])

prop("C11", "Clustering respects the weight limit and covers all vertices",
     "The label propagation clustering assigns every vertex one cluster id below n. Run by one thread, no cluster with more than one vertex weighs more than the maximum cluster weight; run by several threads, under every interleaving each other thread can exceed the limit of a cluster by at most one of its vertices. When communities are given, no cluster contains vertices of different communities. Isolated and low-degree vertices merged in the two-hop stage obey the same rules.",
     ["inputs", "schedules", "configurations"], "all small weighted graphs, weight limits, two-hop and isolated-node strategies, interleavings up to a bound",
     "The tests never run the clustering concurrently under control, and use two graphs.",
     [S + "label_propagation.h", S + "coarsening/clustering/lp_clusterer.cc"],
     [("check-then-add on relaxed atomic cluster weights", S + "label_propagation.h")], observe=["clustering array"])

prop("C12", "Coarsening then uncoarsening preserves cut, weights and graph",
     "Along any coarsening hierarchy the total vertex weight is the same on every level, and each uncoarsening step returns the next finer graph unchanged with a partition of identical edge cut and identical block weights. Coarsening never produces more vertices than it started with and reports honestly whether it still shrinks the graph.",
     ["inputs", "histories", "configurations"], "all small graphs, coarsening configurations and partitions of the coarsest graph",
     "Only one level and a fixed clustering is checked by tests.",
     [S + "coarsening/cluster_coarsener.cc", S + "initial_partitioning/initial_coarsener.cc", S + "initial_partitioning/sequential_graph_hierarchy.cc"],
     [("stack of coarse graphs with projections", S + "coarsening/cluster_coarsener.cc")], observe=["coarsener interface"])

prop("C13", "Initial bipartitioning is valid and refinement never makes it worse",
     "For every small graph and pair of block-weight limits, each initial bipartitioning algorithm assigns every vertex to block 0 or 1 and reports block weights that match the assignment. The 2-way refinement never increases the weight above the limits nor the cut, and reports improvement exactly when it improved. The best-of-many selection returns one of the computed bipartitions: a feasible one if there was any, with the smallest cut among those.",
     ["inputs", "configurations"], "all small weighted graphs, limits (including infeasible ones), algorithms and seeds from a menu",
     "Tests check one or two graphs per bipartitioner.",
     [S + "initial_partitioning/"], [("bipartitioners with per-block limits; FM with rollback to the best prefix", S + "initial_partitioning/initial_fm_refiner.cc")],
     observe=["bipartition arrays, block weights"])

prop("C14", "Gain caches always report the true connection of a vertex to a block",
     "After any sequence of moves, and after any interleaving of concurrent moves once they have completed, every gain cache reports for each vertex and block exactly the total weight of edges from the vertex into that block, the resulting gain of any move, and whether the vertex is a border vertex. Iterating over adjacent blocks visits exactly the blocks the vertex is connected to (besides its own), and uncommitted moves are visible only through the delta view they were made in. This holds when one cache is re-initialised for other graphs, for weights up to what a table entry can hold beside the block id, and while a view reports connections or gains exactly like the cache it extends.",
     ["histories", "schedules", "inputs"], "all move sequences up to a depth on small graphs, all two-thread interleavings of moves up to a bound, all cache kinds",
     "The tests apply a few hand-picked moves sequentially.",
     [S + "refinement/gains/"], [("incremental updates on every neighbour of a moved vertex, lock per vertex for hash-table rows", S + "refinement/gains/")],
     observe=["gain, conn and adjacent-block queries"])

prop("C15", "Refinement never invalidates or worsens a partition",
     "Each k-way refiner, and any sequence of them, keeps every vertex in a block below k and the maintained block weights equal to the true ones under every interleaving. Label propagation never makes a block heavier than its limit or than it was, under every interleaving; so does FM as long as its searches do not overlap. Jet never returns a larger cut than it was given, under every interleaving, and keeps a balanced partition of unit-weight vertices balanced; label propagation and FM never return a larger cut as long as the threads do not overlap. With communities, label propagation keeps a block inside its community. Reusing a refiner for other graphs changes none of this.",
     ["inputs", "schedules", "configurations"], "all small weighted graphs, partitions, limits and refinement configurations; interleavings up to a bound",
     "Tests check single refiners on one or two toy graphs sequentially.",
     [S + "refinement/lp/lp_refiner.cc", S + "refinement/fm/fm_refiner.cc", S + "refinement/jet/jet_refiner.cc", S + "refinement/multi_refiner.cc"],
     [("weight-checked moves; rollback to best prefix or snapshot", S + "refinement/")], observe=["partition before and after refine()"])

prop("C16", "The balancer removes overload whenever unit moves can, and never adds any",
     "Rebalancing never increases the total overload, keeps the maintained block weights exact and all block ids in range, and leaves a partition without overloaded blocks untouched. For unit-weight vertices and limits that sum to at least the total weight, it ends with no overloaded block.",
     ["inputs", "schedules", "configurations"], "all small graphs with all (also extremely unbalanced) partitions and limits; interleavings up to a bound",
     "Tests cover one overloaded block on a few graphs.",
     [S + "refinement/balancer/greedy_balancer.cc", S + "refinement/adapters/"], [("sequential then parallel rounds over per-block priority queues", S + "refinement/balancer/greedy_balancer.cc")],
     observe=["partition before and after"])

prop("C17", "Block weights stay exact and within limits under concurrent moves",
     "A partitioned graph's block weights always equal the summed weights of the vertices assigned to each block once all concurrent moves have completed, for every interleaving. A conditional move is performed only if the target block stays within its limit, no interleaving lets two conditional moves jointly exceed the limit, and a rejected move changes nothing.",
     ["schedules", "histories"], "all interleavings of two to three threads with a few moves each, up to three preemptions; all sequential move sequences to a depth",
     "Tests never run moves concurrently.",
     [S + "datastructures/partitioned_graph.h"], [("compare-and-swap loop on the target weight before the move", S + "datastructures/partitioned_graph.h")],
     state=[("block weights", "one counter per block", S + "datastructures/partitioned_graph.h")], observe=["block, block_weight and move results"])

prop("C18", "Parallel primitives and integer math equal their sequential definition",
     "For every input and every division of the range among workers, the parallel sum, maximum, maximum difference, prefix sum and chunked loops give exactly the result of the sequential definition, and the deterministic loops visit every index exactly once. The integer helpers (logarithms, rounding to powers of two, division with rounding up, even splitting into chunks, bit masks, percentiles) return the mathematically exact value over the whole range of their type.",
     ["inputs", "schedules"], "all arrays up to a small length over a small alphabet including negative values, all divisions, all values of small types and boundary values of large ones",
     "Tests use five to ten element arrays with unsigned values.",
     [C + "parallel/algorithm.h", C + "parallel/aligned_prefix_sum.h", C + "parallel/loops.h", C + "parallel/atomic.h", C + "math.h"],
     [("reduction bodies with split and join", C + "parallel/algorithm.h")], observe=["return values and output arrays"])

prop("C19", "Priority queues always deliver an extremal element",
     "After any sequence of insertions, priority changes and removals, every priority queue contains exactly the elements a reference set would, reports their current priorities, and its top is an element of extremal priority. This holds across clearing, reuse, several heaps sharing an element space and growing beyond the initial capacity.",
     ["histories"], "all operation sequences up to a depth over a few elements and priorities, for each queue kind",
     "Tests exercise a few fixed sequences.",
     [C + "datastructures/binary_heap.h"], [("sift up/down with an id-to-position index", C + "datastructures/binary_heap.h")], observe=["top, pop, contains, key, size"])

prop("C20", "Maps, sets and packed arrays behave like their abstract data type",
     "Every sparse map, fixed-size map, growing map, marker set, resettable array, packed integer array, rank bitmap and queue behaves like the obvious sequential container after any sequence of operations. Switching representation because a map grew loses no entry, clearing removes all entries and nothing else, and operations on one key never change another key's value.",
     ["histories", "inputs"], "all operation sequences up to a depth with colliding keys, all value widths",
     "Tests insert a few keys without collisions.",
     [C + "datastructures/"], [("backing arrays with used-entry stacks, open addressing, bit packing", C + "datastructures/")], observe=["container interfaces"])

prop("C21", "Concurrent containers neither lose nor duplicate elements",
     "When several workers add to a shared buffered list, ordering buffer, per-thread vector, shared border-node queue or resettable array at the same time, the combined content afterwards contains every added element exactly once with all of its data, for every interleaving. Ordering buffers release entries exactly once and in order.",
     ["schedules", "histories"], "all interleavings of two to three threads with a few operations each, up to three preemptions",
     "Tests run these containers from one thread.",
     [C + "datastructures/ts_navigable_linked_list.h", C + "datastructures/concurrent_circular_vector.h", C + "datastructures/concurrent_fast_reset_array.h", C + "parallel/vector_ets.h", C + "datastructures/compact_hash_map.h"],
     [("thread-local chunks and atomic reservation", C + "datastructures/")], observe=["content after joining"])

prop("C22", "Recursive block splitting covers exactly the requested blocks",
     "When the number of blocks is extended level by level, the current blocks always correspond to consecutive, disjoint ranges of final blocks that together cover all of them, with sizes differing by at most one. The weight limit of a current block is the sum of the limits of the final blocks it stands for (for uniform limits: (1 + eps) times their rounded-up proportional share of the total weight), plus at most one vertex on coarse levels, and the bipartition of a block splits its range and its limits consistently. Extending a partition moves every vertex only to blocks inside the range of the block it was in.",
     ["inputs", "histories"], "all numbers of blocks up to several thousand, all levels, uniform and non-uniform limits",
     "Tests compare a table of a few values.",
     [S + "partitioning/partition_utils.cc", S + "partitioning/partition_utils.h", S + "partitioning/helper.cc", S + "kaminpar.h"],
     [("closed-form first sub-block and final k", S + "partitioning/partition_utils.cc")], observe=["split sizes, limits, sub-block ranges"])

prop("C23", "Graph files round-trip through every format",
     "Writing a graph to a supported format and reading it back yields the same vertices, edges, vertex weights and edge weights, with and without weights, in every index width the format supports. Reading the same graph from different formats, or directly into the compressed representation, or with rearrangement by degree, yields the same graph up to the reported vertex mapping.",
     ["inputs", "configurations"], "all small graphs and weightings, all formats and width flags, all reader entry points, white-space and comment variants of the text format",
     "There is no test for file formats.",
     ["apps/io/shm_io.cc", "apps/io/shm_metis_parser.cc", "apps/io/shm_parhip_parser.cc", "apps/io/shm_compressed_graph_binary.cc", "apps/io/file_toker.h"],
     [("tokenizer over a memory-mapped file; versioned binary headers", "apps/io/")], observe=["parsed graphs"])

prop("C24", "Malformed graph input is rejected, never misread",
     "A truncated, inconsistent or non-numeric graph file, or a file that cannot be opened, is reported as an error or leads to a clean error exit; it never crashes, hangs, reads outside the file or silently yields a graph other than the one in the file. Text files must announce the number of vertices and edges they contain, list neighbours in range other than the vertex itself, and positive weights whose total is representable (surplus lines only cause a warning); binary files must be complete, with ascending offsets that cover all edges and neighbours in range (their weights, self-loops and duplicate edges are left to the validator); a partition file must contain one number per line. The input validator accepts exactly the graphs that are undirected with symmetric weights and free of self-loops, duplicate edges and out-of-range neighbours.",
     ["inputs", "fault_sequences"], "every truncation and single-token corruption of small files in each format; all small adjacency structures for the validator",
     "There is no test for malformed input.",
     ["apps/io/shm_metis_parser.cc", "apps/io/shm_parhip_parser.cc", "apps/io/file_toker.h", "apps/io/shm_input_validator.cc", "apps/io/shm_io.cc"],
     [("format checks and exceptions in the parsers", "apps/io/"), ("validator", "apps/io/shm_input_validator.cc")], observe=["error exits, exceptions, accepted graphs"])

prop("C25", "Partition, block-size and mapping files reproduce what was computed",
     "Partition files written by the tools contain one line per vertex in the caller's original order and read back to the identical partition. Block-size files list for every block its number of vertices, and remapping files list the vertex mapping that was applied; the rearranged graph file is the input graph under that mapping, with the blocks consecutive. The cut, imbalance and number of blocks that the program prints are those of the partition file.",
     ["inputs"], "all small partitions, k, and vertex mappings",
     "There is no test for these writers.",
     ["apps/io/shm_io.cc", "apps/KaMinPar.cc"], [("writers", "apps/io/shm_io.cc")], observe=["files"])

prop("C26", "Configurations survive dump and load, and presets are self-consistent",
     "Every preset name that is listed can be instantiated, and every option value accepted on the command line or shown by help maps to exactly one setting. Dumping the configuration produces text that, when loaded again without naming a preset, reproduces the identical configuration; options on the command line take precedence over the loaded file; and setting one option changes only that option's setting.",
     ["configurations"], "all presets, all command line options and all their enumerated values",
     "There is no test for the command line interface.",
     ["kaminpar-cli/kaminpar_arguments.cc", S + "presets.cc", S + "context_io.cc"], [("option definitions bound to context fields, string-to-enum tables", "kaminpar-cli/kaminpar_arguments.cc")],
     observe=["context fields, dumped configuration"])

prop("C27", "Quality metrics equal their definitions",
     "Edge cut, imbalance, total overload, balance and feasibility as reported for a partition equal their textbook definitions computed from scratch, for both graph representations, for weighted and unweighted graphs, for empty blocks and for totals beyond 32 bits of cut weight where the type allows it.",
     ["inputs", "schedules"], "all small graphs, weights and partitions; all divisions of the summation",
     "The metric tests use one graph with unit weights.",
     [S + "metrics.h", S + "metrics.cc", S + "datastructures/partitioned_graph.h"], [("parallel reductions over vertices and blocks", S + "metrics.h")], observe=["metric functions"])

prop("C28", "The graph tools report and write what their input says",
     "For every graph in every supported format, plain or compressed: the connected-components tool reports the number of components, the size of the largest and the histogram of sizes, and writes exactly one largest component with its weights; the weights tool keeps the graph and gives both directions of an edge the same weight within the requested range; the compression and rearrangement tools write the same graph (sorted by degree bucket if requested); the graph and partition property tools report the true counts, weights, degrees, cut, imbalance and number of blocks, and a partition that does not belong to the graph is rejected.",
     ["inputs", "configurations"], "all small graphs, weights, partitions and formats, all tool options",
     "There is no test for any of the tools.",
     ["apps/tools"], [("the tools' main functions", "apps/tools/shm_connected_components_tool.cc"), ("weight generation for both directions of an edge", "apps/tools/shm_graph_attach_weights_tool.cc")], observe=["printed text, output files"])

D = "kaminpar-dist/"
prop("C29", "Ranks receive exactly the messages that were sent to them",
     "For every number of processes, every exchange algorithm (grid, all-to-all-v, point-to-point, automatic choice) and every pattern of message counts, each process receives from every other process exactly the messages addressed to it, in the order in which they were added, and knows the sender; the exchanges over graph interfaces deliver one message per (interface vertex, adjacent process) or per cut edge, with the right endpoint; reductions combine every contribution exactly once. No exchange deadlocks, neither with buffered nor with synchronous sends, in no order of the processes, and communicators may be freed and new ones used.",
     ["inputs", "schedules", "histories"], "all message matrices of few ranks, all single messages and structured patterns of up to 26 ranks, all orders of the ranks within a bound, all small graphs under all distributions",
     "The existing MPI tests need a real MPI with several processes (not part of the stable tests here) and use a few fixed patterns.",
     ["kaminpar-mpi", D + "graphutils/communication.h"], [("exchange algorithms", "kaminpar-mpi/sparse_alltoall.h"), ("grid exchange", "kaminpar-mpi/grid_alltoall.h"), ("interface exchanges", D + "graphutils/communication.h")],
     observe=["received messages", "termination"])

prop("C30", "A distributed graph presents the same graph as its parts together",
     "For every graph and every distribution of its vertices to processes, including processes without vertices, the plain and the compressed distributed graph agree with the input: local and global vertex ids, ghost vertices (exactly the remote neighbours, once each, with owner and weight), neighbourhoods with edge weights, totals and maxima, degree buckets, and the maps between local, global and remote ids. Distributed partitions report the block of every local and ghost vertex and the block weights of the whole graph; cut, imbalance and feasibility are those of the assembled partition. Reordering by degree or coloring yields the same graph under the reported permutation, and colorings are proper across processes.",
     ["inputs", "configurations"], "all small graphs under all distributions to few ranks",
     "The existing distributed tests need a real MPI and use a few fixed graphs.",
     [D + "datastructures", D + "graphutils", D + "metrics.cc", D + "algorithms/greedy_node_coloring.h"],
     [("ghost node mapping", D + "datastructures/ghost_node_mapper.h"), ("graph construction", D + "datastructures/distributed_csr_graph.h"), ("compressed construction", D + "datastructures/distributed_compressed_graph.h"), ("vertex orders", D + "graphutils/rearrangement.cc"), ("metrics", D + "metrics.cc")],
     observe=["graph interface on every rank", "metrics"])

prop("C31", "Contracting a distributed clustering is an exact quotient",
     "For every distributed graph and every clustering, local or global, the coarse graph has one vertex per cluster with the total weight of its members, an edge between two clusters exactly if an edge joins them, with the total weight of the joining edges, no self-loops, and a total node weight equal to that of the input; the mapping sends each vertex to its cluster's coarse vertex, on whichever rank this lies, also after coarse vertices were migrated to balance the ranks. Projecting a coarse partition up gives every vertex the block of its coarse vertex, also for ghost vertices. This holds for ranks without vertices and for fewer clusters than ranks.",
     ["inputs", "configurations", "histories"], "all small graphs, distributions and clusterings, all migration settings",
     "The existing distributed tests need a real MPI and use a few fixed graphs.",
     [D + "coarsening/contraction"],
     [("global contraction with migration of coarse vertices", D + "coarsening/contraction/global_cluster_contraction.cc"), ("local contraction", D + "coarsening/contraction/local_cluster_contraction.cc")],
     observe=["coarse graph on every rank", "projected partitions"])
