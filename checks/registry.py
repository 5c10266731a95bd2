COMMON_ASSUMPTIONS = [
    "KAssert is replaced by a stand-in (external/kassert is not part of the tree); oneTBB is replaced by the controlled runtime in /verif/mc, whose semantics are trusted",
    "sequentially consistent memory: weak-memory reorderings are not explored",
]
SHM = ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/factories.cc", "kaminpar-shm/presets.cc", "kaminpar-shm/context_io.cc"]
CORE = dict(optional=["kaminpar-shm/kaminpar.cc", "kaminpar-shm/presets.cc"], unused=r"kaminpar::shm::(factory::|print\(|operator<<|to_string|get_)")
CHECKS = {}
NOT_APPLICABLE = {}
SEQ = "model checking: exhaustive bounded enumeration of inputs/operation sequences on the real code against a reference model"
MT = "model checking: stateless preemption-bounded exploration of thread interleavings of the real code, plus exhaustive bounded enumeration of inputs against a reference model"
MPI = "model checking: exhaustive bounded enumeration of inputs, of their distributions over ranks and of what MPI leaves open (send completion, order of the ranks, handle reuse), on the real code under a controlled MPI stand-in, against a reference model"


def check(prop, rule, units, technique=SEQ, note="", level="model_checking", assumptions=()):
    CHECKS[prop] = {"rule": rule, "units": units, "level": level, "assumptions": list(assumptions), "technique": technique,
                    "note": note or "Exhaustive within the stated bounds on the real code (" + rule + "); trusts the runtime stand-ins and the reference model in the harness."}


def unit(name, variant="seq", src=None, **kw):
    d = {"name": name, "variant": variant, "src": src or ["checks/%s.cc" % name]}
    d.update(kw)
    return d

check("C07", "every value below 2^24 (2^32 thorough) plus all power-of-two neighbourhoods through every variable-length codec; all "
      "StreamVByte sequences over byte-width boundary alphabets up to length 5 (8 over one value per width), with every early-stop "
      "position; a case is one value or sequence, nontrivial when it has a distinct value",
      [unit("C07_codecs", tus="none")])

check("C18", "all arrays over small signed/unsigned alphabets up to length 5 (6 thorough) under 8 divisions of the range for every reduction, "
      "prefix sum and loop; integer helpers on every 32-bit value up to 2^22 (all thorough) and around every power of two of 64-bit types; "
      "all pairs of operations of the atomic wrapper from two threads under every interleaving with up to 3 preemptions",
      [unit("C18_primitives", tus="none"), unit("C18_atomic", "mt", tus="none")], technique=MT)

check("C17", "initial block weights for all assignments (including unassigned vertices) of up to 5 weighted vertices to up to 3 blocks, and k around 65536, under 6 divisions; "
      "all operation sequences (conditional move, forced assignment, delta overlay) up to depth 2-4 (3-5 thorough) against a reference; two- and three-thread programs of "
      "conditional and forced moves under every schedule with up to 3 (2 for three threads) deviations, verdicts of single moves compared with all sequential orders",
      [unit("C17_blockweights", "mt")], technique=MT)

check("C19", "all operation sequences (push, pop, remove, change, push-or-change, clear) up to depth 4-5 (5-6 thorough) over 2-3 elements and 2-3 priorities per queue kind, with "
      "two heaps sharing an element space; all insertion orders and tie patterns of up to 7 (9) elements followed by every single change/removal and complete draining; a menu of "
      "deeper heaps up to 100 elements",
      [unit("C19_heaps", tus="none")])

check("C20", "all operation sequences up to depth 4-7 (5-9 thorough) over colliding keys for every map, marker, resettable array and queue; all erase orders of compact hash rows with "
      "every key subset; all value combinations from boundary alphabets for packed arrays of every byte width; rank bitmaps of boundary lengths with ten patterns, three fills and repeated updates",
      [unit("C20_containers", tus="none")])

check("C21", "two and three threads adding to a buffered linked list, ordering buffer (spinning and mutex), per-thread vector, resettable array, node lock table and shared border-node queue, under every "
      "schedule with up to 2-3 (5 thorough) deviations and three ways of assigning chunks to threads; list sizes around the 32768-element chunk boundary",
      [unit("C21_concurrent", "mt")], technique=MT)

check("C22", "split sizes and sub-block ranges for every k up to 2048 (8192) and ten larger ones at every level; limits of current blocks and of bipartitions for every k up to 70 (200) under 8 limit "
      "settings, 4 weightings and removed isolated vertices; every chain of extensions up to k=17 (33) for 12 graphs, 4 implementations and 3 initial partitions; completion of partial levels; pools shared along hierarchies",
      [unit("C22_splitting", **CORE)])

check("C27", "all partitions of all graphs with up to 4 (5) vertices, 6 weightings, every k up to n+1, 7 limit settings, both graph representations; all partitions of 6 larger graphs; 30 divisions of the summation; "
      "cut weights up to 2^55 in the 64-bit configuration; best-of-three selection over all triples of 7 candidate partitions",
      [unit("C27_metrics", **CORE), unit("C27_metrics64", "seq64", src=["checks/C27_metrics.cc"], **CORE)])

check("C14", "thirteen instantiations of the five gain caches on three graph representations: all partitions into 2-8 blocks of all graphs with up to 4 vertices and all move sequences up to depth 1-3 from each (with undo), 15 structured graphs "
      "with up to 33 blocks, weights around every byte and entry width in 32- and 64-bit builds, all move sequences up to depth 1-3 (4 thorough) in views of uncommitted moves, dropped and committed, chains of re-initialisations, six divisions of "
      "the loops; 14 programs of concurrent moves under every schedule of 2 threads with up to 3 (4) and 3 threads with up to 2 (3) deviations",
      [unit("C14_gaincache", **CORE), unit("C14_gaincache64", "seq64", src=["checks/C14_gaincache.cc"], **CORE),
       unit("C14_gaincache_mt", "mt", src=["checks/C14_gaincache.cc"], **CORE)], technique=MT)

check("C11", "all graphs with up to 4 vertices and all graphs with 5 (6 thorough) vertices up to isomorphism, up to four weightings, three representations, eight weight limits, all isolated-node and two-hop strategies, three "
      "implementations, both tie breakings, all divisions of the vertices into two communities; 22 structured graphs; stars with 10000 neighbouring clusters; 80 concurrent programs under every schedule of 2 threads with up to 2 (3) and "
      "3 threads with up to 1 (2) deviations",
      [unit("C11_clustering", tus="auto"), unit("C11_clustering_mt", "mt", src=["checks/C11_clustering.cc"], tus="auto")], technique=MT)

check("C12", "36 coarsening configurations on all graphs with up to 4 vertices and all graphs with 5 (6 thorough) vertices up to isomorphism, three representations, up to three weightings, every sequence of coarsening and uncoarsening "
      "steps up to depth 3-5 (6), every partition of a coarsest graph with up to 4 vertices; 14 structured graphs with up to 600 vertices; chains of graphs through one coarsener; the sequential coarsener with nine contexts on all these graphs, "
      "every bipartition of every input, chains of 28 graphs up to 1100 vertices, weights around every power of two; 24 programs under every schedule of 2 threads with up to 2 (3) and 3 threads with up to 1 (2) deviations",
      [unit("C12_coarsener", tus="all"), unit("C12_coarsener_mt", "mt", src=["checks/C12_coarsener.cc"], tus="all")], technique=MT)

check("C10", "all set partitions (as clusterings with three id conventions) of all graphs with up to 4 vertices and all graphs with 5 (6 thorough) vertices up to isomorphism, two weightings, all 8 algorithm "
      "settings, both graph representations, one reused memory context; 10 structured graphs x 5 weightings x 7 clusterings under 6 divisions; four graphs beyond every internal threshold; eight inputs under every schedule "
      "of 2 and 3 threads with up to 1 (2) deviations",
      [unit("C10_contraction", tus="auto"), unit("C10_contraction_mt", "mt", src=["checks/C10_contraction.cc"], tus="auto")], technique=MT)

check("C09", "all partitions into up to 4 (3 for the largest) blocks of all graphs with up to 4 vertices and all graphs with 5 (6 thorough) vertices up to isomorphism, four weightings, both graph representations, three "
      "numbers of final blocks, parallel, lazy and recursive in-place sequential extraction, copying back to final and intermediate numbers of blocks; 10 structured graphs x 5 weightings under 9 divisions; six inputs under "
      "every schedule of 2 threads with up to 2 (3) and 3 threads with up to 1 (2) deviations",
      [unit("C09_extraction", tus="auto"), unit("C09_extraction_mt", "mt", src=["checks/C09_extraction.cc"], tus="auto")], technique=MT)

check("C08", "all vertex permutations of all graphs with up to 4 vertices and all graphs with 5 (6 thorough) vertices up to isomorphism under four weightings and four divisions of the loops, rearranged by the permutation (with and "
      "without a ghost vertex) and by degree buckets, plain and compressed, with removal, re-integration (twice) and completion of a partition; counting sort by generic buckets for 40 assignments of up to 53 vertices to up to 70 "
      "buckets; 10 structured graphs up to 300 vertices x 3 labellings x 5 weightings; five inputs under every schedule of 2 and 3 threads with 1 (2) deviations",
      [unit("C08_permutation", **CORE), unit("C08_permutation_mt", "mt", src=["checks/C08_permutation.cc"], **CORE)], technique=MT)

check("C06", "all neighbour sets over 12 (14 thorough) vertices and all graphs with up to 5 (6) vertices, four weight patterns, two or three adjacency orders, through the stream, sequential and parallel builders and decompression, every prefix "
      "length and every early stop; gaps and weights around every power of two; degrees 9999-20000 in seven shapes with stops around every part boundary; five graphs with many chunks under 7 divisions; 64-bit and StreamVByte configurations; the "
      "parallel builder under every schedule of 2 threads with up to 2 (3) and 3 threads with up to 1 (2) deviations",
      [unit("C06_compression", tus="auto"), unit("C06_compression64", "seq64", src=["checks/C06_compression.cc"], tus="auto"),
       unit("C06_compression_svb", "svb", src=["checks/C06_compression.cc"], tus="auto"), unit("C06_compression_mt", "mt", src=["checks/C06_compression.cc"], tus="auto")], technique=MT)

check("C01", "all graphs with up to 4 (5 thorough) vertices, four weightings, k from 1 to n+1, all 15 presets as they are and with contraction limits that force coarsening, plain and compressed, borrowed and copied; all graphs with 5 and 6 vertices up to "
      "isomorphism for 5 presets; 20 structured graphs x 5 weightings x up to 10 k x presets x 50 settings no preset selects (modes, orderings, contraction, two-hop, gain caches) x 5 ways to give limits; k up to 257; "
      "weights near the type limits; 9 graphs under 9 divisions of the parallel loops",
      [unit("C01_partition", tus="all")])

check("C02", "all graphs with up to 4 (5 thorough) vertices, unit and varying edge weights, every k up to n+1, eps in {0, 0.03, 0.5}, the 13 presets with a balancer as they are and with contraction limits that force coarsening, plain and compressed; "
      "all graphs with 5 and 6 vertices up to isomorphism for 5 presets; 22 structured graphs x 3 edge weightings x up to 9 k x 3 eps plus tight, skewed, loose and relative individual limits; six graphs with 4000 vertices and k up to 300; "
      "8 graphs under 9 divisions of the parallel loops",
      [unit("C02_balance", tus="all")])

check("C03", "complete partitioning calls for 15 presets and 19 settings no preset selects on 7 graphs with 6 to 8 vertices (k from 2 to 4, plain and compressed) under every schedule of 2 or 3 threads with up to 1 (2 thorough) deviations, three ways of assigning "
      "chunks to threads; dynamically assigned chunks for three presets; no monitoring of per-thread state while it is being constructed",
      [unit("C03_schedules", "mt", tus="all")], technique=MT)

check("C04", "all histories of three calls over 7 graphs (copied, borrowed, set, compressed; with isolated vertices, weighted, empty) or keeping the current graph and 8 ways to give limits (third call from a menu in the quick tier) for 12 configurations, compared with fresh "
      "instances; histories of 12 calls; calls after rejected calls; two instances used alternately for all pairs of configurations and graphs; three workers under three assignments",
      [unit("C04_reuse", tus="all")])

check("C05", "all graphs with up to 5 vertices up to isomorphism, two weightings, k from 2 to 4, 14 structured graphs up to 4900 vertices x 4 weightings x 4 k, for all presets as they are and deepened and 19 settings no preset selects: each run is repeated under four "
      "combinations of heap contents (allocated and freed memory overwritten), stack contents, shifted addresses, clocks (real, frozen, jumping, running backwards) and preceding work (other partitioners, other seeds, three threads)",
      [unit("C05_determinism", tus="all")])

check("C13", "all graphs with up to 5 (6 thorough) vertices up to isomorphism, three or four weightings, up to ten pairs of limits (feasible or not): seven bipartitioning algorithms x 8-12 seeds x 3 seed iterations; the 2-way refinement from every starting "
      "bipartition under 13 settings; the selection among every sequence of up to 3 (4) scripted candidates, with and without adaptive repetition; 15 structured graphs up to 300 vertices x 6 weightings on reused objects; the multilevel bipartitioner "
      "and the worker pool of four presets for k in {2, 3, 4, 7}, plain and compressed",
      [unit("C13_initial", tus="all")])

check("C15", "all graphs with up to 5 (6 thorough) vertices up to isomorphism, three weightings, all partitions into up to 4 blocks, up to six settings of the limits, plain, compressed and sorted, for 28 settings of label propagation, FM and Jet and sequences of them "
      "(one in 2 to 9 for the larger graphs in the quick tier); all communities for label propagation; 15 structured graphs refined as one hierarchy x 4 weightings x 4 k x 6 starts; vertices adjacent to more than 10000 blocks; 6 divisions of the loops; "
      "FM with the seven other gain caches in an experimental build; eight inputs x 25 settings under every schedule of 2 and 3 threads with 1 or 2 (one more thorough) deviations",
      [unit("C15_refiners", tus="all"),
       unit("C15_refiners_exp", "exp", src=["checks/C15_refiners.cc"], extra=["kaminpar-shm/factories.cc", "kaminpar-shm/kaminpar.cc"], optional=["kaminpar-shm/kaminpar.cc", "kaminpar-shm/factories.cc", "kaminpar-shm/presets.cc", "kaminpar-shm/context_io.cc"]),
       unit("C15_refiners_mt", "mt", src=["checks/C15_refiners.cc"], tus="all")], technique=MT)

check("C16", "all graphs with up to 6 (7 thorough) vertices up to isomorphism, six weightings, all partitions into up to 4 blocks, up to ten settings of the limits (feasible or not, exactly the total weight, steep, uneven), plain, compressed and sorted, with and "
      "without a tracking gain cache; 16 structured graphs up to 500 vertices x 6 weightings x 6 k x 6 starts on reused balancers, growing and shrinking; 9 divisions of the loops; 12 inputs under every schedule of 2 threads with 3 (4 thorough) and "
      "3 threads with 2 (3) deviations",
      [unit("C16_balancer", tus="all"), unit("C16_balancer_mt", "mt", src=["checks/C16_balancer.cc"], tus="all")], technique=MT)

check("C23", "all graphs with up to 5 (6 thorough) vertices and 14 (18) structured graphs, five weightings (up to the limits of the weight types), written and read through METIS, ParHIP and compressed binary by every reader (plain, compressed, "
      "parallel, every vertex ordering), all 64 combinations of ParHIP flags the build can hold, 1024 spacing, comment, size and page-boundary variants of the text of eight graphs x 5 weightings; 64-bit and StreamVByte configurations; three graphs under six "
      "divisions of the loops; five graphs x 6 reader-writer chains under every schedule of 2 and 3 threads with 1 (2) deviations",
      [unit("C23_formats", tus="auto"), unit("C23_formats64", "seq64", src=["checks/C23_formats.cc"], tus="auto"),
       unit("C23_formats_svb", "svb", src=["checks/C23_formats.cc"], tus="auto"), unit("C23_formats_mt", "mt", src=["checks/C23_formats.cc"], tus="auto")], technique=MT)

check("C24", "every truncation and every single-token, single-byte or single-word change from a menu of hostile values, of files in the text, ParHIP and compressed formats (about 100000 files), as they are and at the end of a memory page, through every reader, "
      "against reference parsers; missing, empty and unreadable files; all small partition files; all multigraphs with up to 3 vertices and weights for the validator; every case in a process of its own, compiled with AddressSanitizer",
      [unit("C24_malformed", "asan", tus="auto")])

check("C25", "all partitions of up to 6 vertices into up to 4 blocks and large ones through the writers and readers; the whole program on all graphs with up to 4 vertices and 5 larger ones (two to four weightings) for 10 settings of k and the limits, METIS, ParHIP and "
      "compressed inputs, all vertex and edge orderings, with and without compression and edge weights: its files are parsed independently and compared with the input graph, the partition and the printed summary",
      [unit("C25_output", src=["checks/C25_output.cc", "checks/app_kaminpar.cc"], tus="all")])

check("C26", "all presets and all options of the command line program with all their listed values and a menu of numbers: over every preset, in all pairs, dumped and loaded again, dumped by the program itself and loaded with and "
      "without overriding options; every field of the context compared through a printer that is independent of the dump",
      [unit("C26_config", src=["checks/C26_config.cc", "checks/app_kaminpar.cc"], tus="all")])

check("C28", "all graphs with up to 4 vertices, all partitions of up to 3 vertices into 3 blocks and of 4 vertices into 2, and 7 structured graphs up to 300 vertices with four weightings through the six tools as whole programs: METIS, ParHIP and compressed inputs, plain and "
      "compressed processing, both output formats, all distributions, orderings and three seeds; partitions that are too short or too long",
      [unit("C28_tools", src=["checks/C28_tools.cc", "checks/app_kaminpar.cc"] + ["checks/tool_" + t + ".cc" for t in ("components", "weights", "compression", "properties", "rearrange", "partition")], tus="all")])

DIST = dict(variant="dist", tus="all")
check("C29", "all message matrices with up to 2 messages per pair of up to 2 ranks (0/1 and selected sizes for 3), six patterns and every single message for every number of ranks up to 26 (37 thorough), message sizes around the switch of algorithms, all communicator subsets of up to 6 ranks "
      "freed and reused, for every exchange algorithm and calling convention, with eager and synchronous sends; every order of the ranks with up to 12/5/3 deviations for 2/3/4 ranks; all reductions up to 20 ranks; exchanges over graph interfaces for all graphs with up to 4 vertices under all distributions",
      [unit("C29_communication", **DIST)], technique=MPI)

check("C30", "all graphs with up to 4 vertices (5 thorough) under all distributions to up to 3 ranks (4 thorough), including ranks without vertices, plain and compressed, with three weightings; a menu of structured graphs on up to 5 ranks; all block assignments of 4 vertices into 3 blocks; every graph of 4 vertices through both vertex orders and the coloring",
      [unit("C30_distgraph", **DIST)], technique=MPI)

check("C31", "all labellings of all graphs with up to 3 vertices (every class of graphs with 4) under all distributions to up to 3 ranks (4 thorough) as global clusterings with six settings of the migration of coarse vertices, and all clusterings inside ranks of all graphs with up to 4 vertices; "
      "plain and compressed; nine structured graphs, four weightings and eight clusterings on up to 6 ranks; the coarse graph and the projected partitions against the quotient",
      [unit("C31_distcontract", **DIST)], technique=MPI)
