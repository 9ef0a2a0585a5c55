prop('C01', 'Configuration value names are unique, complete and read back as printed',
  'Every value of an enumerated setting (algorithm, scheme, strategy, format) is selectable under at least one name, and a name selects one value only. The name printed for a value is an accepted name of that same value, no two values print the same name, and every value has a printed name.',
  ['configurations'], 'all names and values of all enumerated settings of the shared-memory and distributed partitioners and of the I/O layer',
  'The tests never go through the name tables or the printers; an exchanged pair of names compiles and silently runs another algorithm.',
  ['kaminpar-shm/context_io.cc', 'kaminpar-dist/context_io.cc', 'apps/io/shm_io.cc'],
  [('get_* name tables', 'kaminpar-shm/context_io.cc'), ('operator<< printers', 'kaminpar-dist/context_io.cc')],
  module='names', floor=140, level='proof', technique='table extraction from the syntax tree plus constant propagation of each enumerator through the printer control-flow graph',
  rules='per enum: names bound once, every enumerator accepted, printed name accepted and denoting the same enumerator, printed names distinct, names not exchanged between enumerators',
  note='All tables and printers of the tree; a value reaching a printer from outside the enum is not considered.')

prop('C02', 'Every value of an enumerated setting selects its own behaviour',
  'Wherever behaviour is selected by an enumerated setting, every value of the setting has its own selection: none is missing, none runs on into the behaviour of the next value, and no two different values select the same behaviour. A value selects the behaviour it names, that is, the selections of two values are not exchanged.',
  ['configurations'], 'all switches over configuration enums and all comparisons with their values in all libraries and tools, for every value of the enum',
  'A test drives a handful of configurations; a fall-through, a missing arm or two exchanged arms show only for the one value concerned, and mostly as a result of another quality.',
  ['kaminpar-shm/factories.cc', 'kaminpar-dist/factories.cc', 'kaminpar-shm/context_io.cc'],
  [('factory switches', 'kaminpar-shm/factories.cc'), ('factory switches', 'kaminpar-dist/factories.cc')],
  module='dispatch', floor=110, level='proof', technique='reachability of switch arms on the control-flow graph, effect signature per arm, identifier matching between enumerators and selected code',
  rules='per switch over an enum of the repository: every enumerator has a live arm, no arm reaches another, effect signatures distinct, arms fit their enumerators better than any exchange of two; per comparison: the guarded code, the flag or the called function does not spell out another value than the compared one, branches of a chain differ and leave at most one value out; per setting: all values but one are asked for',
  note='Exchange is decided by identifiers (enumerator against the names used in its arm) and only where both arms carry such names.')

prop('C03', 'Each command line option controls exactly the setting it names',
  'Within a program every option name belongs to one option, every option controls one setting, and no setting is controlled by two options; the setting is the one the option names, in the section its prefix names, and a negated flag switches it off. An option for an enumerated setting accepts the names of exactly that enumeration. Every option is registered and has an effect: the setting it controls is read by the program.',
  ['configurations'], 'all options of KaMinPar, dKaMinPar and the tools',
  'No test parses a command line; a mis-bound option silently tunes another part of the algorithm or nothing at all.',
  ['kaminpar-cli/kaminpar_arguments.cc', 'kaminpar-cli/dkaminpar_arguments.cc', 'apps/KaMinPar.cc', 'apps/dKaMinPar.cc'],
  [('create_*_options', 'kaminpar-cli/kaminpar_arguments.cc'), ('setup_context', 'apps/KaMinPar.cc')],
  module='options', floor=900, level='proof', technique='symbolic interpretation of the option registration code (paths of bound settings, name prefixes, call graph) plus liveness of every bound field over all units',
  rules='names unique per program; bound paths unique; section prefix in the path; name table of the same enum; identifiers fit (no exchange, no free sibling fits better); polarity; dump-everything covers its family; registration functions reached; bound fields and their sections read; settings not replaced after parsing, handed to the library, kept by every constructor that is given them; of two sections of one kind the own one is read',
  note='That a setting is read is decided, not that it is used well. Identifier fit is a comparison of names.')

prop('C06', 'Timing and profiling regions are balanced on every path',
  'Every timing or heap-profiling region that the library opens is closed exactly once on every path through the code, including early returns and configuration-dependent branches, and no region is closed that is not open. Opening and closing a region move the region stack by exactly one step under the same enabling condition, so the reported tree has the same shape whatever the input, configuration or number of calls.',
  ['inputs', 'configurations', 'histories'], 'all control paths of all functions of the libraries and tools, for every instantiated template',
  'Tests build without profiling output checks and drive only one path per function; a missing stop on an early return corrupts later calls of the process only.',
  ['kaminpar-common/timer.h', 'kaminpar-common/timer.cc', 'kaminpar-common/heap_profiler.h', 'kaminpar-common/heap_profiler.cc'],
  [('start/stop pairs and scoped macros', 'kaminpar-common/timer.h'), ('HeapProfiler::start_profile/stop_profile', 'kaminpar-common/heap_profiler.cc')],
  module='balance', floor=200, level='proof', technique='interprocedural typestate analysis on the control-flow graph',
  rules='forward propagation of the region stack over every CFG (branches over never-written conditions kept apart), non-neutral effects handed to callers; separate check that open/close move the region pointer one step under the same gate and that counted switching-off is taken back step by step; the root region is restarted only where it was closed',
  note='Every path of every function in the analysed units; exceptions thrown by callees are not modelled.', assumptions=['no exception leaves a region'])

prop('C08', 'Recorded block and cluster weights follow the assignment of nodes',
  'The recorded weight of every block or cluster is the total weight of the nodes assigned to it: assigning or moving a node shifts exactly the weight of the node from its old to its new block or cluster, and unassigned nodes count nowhere. A rejected move changes no weight, and a move with a weight limit is accepted only if the new weight was compared with the limit. A node enters a cluster only after its weight was moved there.',
  ['inputs', 'histories', 'schedules'], 'all partition data structures and all code that reassigns nodes or shifts weights between blocks or clusters, on every path',
  'Weights are maintained incrementally under concurrency; a lost or doubled update shows only for particular moves (unassigned blocks, rejected moves, lost races) and then as an overloaded block much later.',
  ['kaminpar-shm/datastructures/partitioned_graph.h', 'kaminpar-shm/datastructures/delta_partitioned_graph.h', 'kaminpar-dist/datastructures/distributed_partitioned_graph.h', 'kaminpar-shm/label_propagation.h', 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc'],
  [('set_block / move / move_block_weight', 'kaminpar-shm/datastructures/partitioned_graph.h'), ('move_cluster_weight', 'kaminpar-shm/label_propagation.h')],
  module='weights', floor=110, level='proof', technique='path-sensitive value numbering of the effects of every path (linear normal forms)',
  rules='set_block/move/move_block_weight: net change per block index on every path; initial weights: one unconditional addition per assigned node; clusterings: derived_move_node dominated by an accepted derived_move_cluster_weight of the same node and target; transfers: changes of one weight array cancel; setting, adding to, taking from and reading a recorded weight do exactly that; constructors compute the weights on all paths or are handed them, over all nodes, blocks and processes; clusters start with the weight of their node and keep it when they are renumbered; table entries start as an update would leave them; weights sent between processes are applied as changes, answers as values',
  note='Sequential semantics of each path; atomicity is the subject of other properties.')

prop('C05', 'Assertions, debug output and statistics only observe',
  'Enabling or disabling assertions, debug output or statistics changes no result: state that such diagnostic code modifies is read by diagnostic code only. Diagnostic code draws no random numbers and does not alter the control flow of the code around it.',
  ['configurations', 'inputs'], 'all diagnostic code of the libraries: operands of the assertion, debug and statistics macros, blocks guarded by their switches, and the functions only they call',
  'The test builds fix one setting of each switch; a side effect hidden in an assertion shows only as a difference between two builds.',
  ['kaminpar-common/assert.h', 'kaminpar-common/logger.h', 'kaminpar-shm/label_propagation.h', 'kaminpar-shm/refinement/fm/fm_refiner.cc'],
  [('KASSERT, DBG, IFSTATS macros', 'kaminpar-common/logger.h')],
  module='diag', floor=550, level='proof', technique='interprocedural side-effect analysis of all diagnostic code, with every diagnostic switch turned on by a virtual overlay',
  rules='for every outermost diagnostic construct: every location it may write (its own objects excepted; calls by summary) is read by diagnostic code only; a value it computes (through variables, pairs, lambdas, parameters and results) ends in diagnostic code; no return, break, continue, throw or goto leaves it',
  note='Writes through handles whose owner is unknown are not attributed; memory poisoned for assertions (fill with an invalid value) is taken to be overwritten before use.')

prop('C21', 'The code type-checks under every documented build option',
  'Every library, program and tool compiles under each documented build option: 64-bit node IDs, edge IDs and weights, each graph compression variant, statistics, heap and page profiling, timers off, assertions off, and each optional dependency present or absent.',
  ['configurations'], 'all translation units under combinations in which every option is switched on and off',
  'The test build compiles a part of the tree under one combination of options; what breaks another combination is seen by the user who needs 64-bit IDs.',
  ['CMakeLists.txt', 'include/kaminpar-shm/kaminpar.h', 'kaminpar-dist/dkaminpar.h', 'kaminpar-shm/coarsening/cluster_coarsener.cc'],
  [('option(KAMINPAR_*)', 'CMakeLists.txt')],
  module='variants', floor=300, level='proof', technique='type checking of every translation unit under a covering set of option combinations (compiler front end only)',
  rules='no unit has a type error under any of the combinations; quick: 4 combinations in which every option is on once and off once, plus the Mt-KaHyPar adapters; thorough: each option by itself as well',
  note='Third-party headers that are absent here (kassert, KaGen, Mt-KaHyPar) are stand-ins with the interfaces in use.')

prop('C29', 'The seed determines all random decisions',
  'The seeded generators are the only source of randomness: no decision draws on clocks, random devices, unseeded generators or the identity of process or thread. Setting the seed stores it for generators created later and resets the complete state of every existing generator, so that two computations with the same seed draw the same numbers. The programs set the seed they are given before they partition.',
  ['histories', 'configurations'], 'all code of the libraries and programs that creates, seeds, resets or draws from a generator',
  'A test compares one run with an expected quality at most; state that survives reseeding or a stray clock shows only when two runs with one seed are compared.',
  ['kaminpar-common/random.h', 'kaminpar-common/random.cc', 'kaminpar-dist/algorithms/independent_set.cc', 'apps/KaMinPar.cc', 'apps/dKaMinPar.cc'],
  [('Random::reseed, Random::reinit', 'kaminpar-common/random.cc')],
  module='rand', floor=32, level='proof', technique='data-flow analysis of seeds (interprocedural, from engine construction and draw back to the seed), side-effect summaries against the fields that reseeding writes, dominance on the control-flow graph of the programs',
  rules='no call of an entropy source outside time measurement; every engine constructed or seeded with a value stemming from the seed; every draw from such an engine; reseed stores the seed and reaches all instances; every field other members change is rewritten by reinit, engine first, what is drawn ahead is drawn completely, no static state; no generator outside the registry; no address in a computation, thread numbers select elements only; Mt-KaHyPar is given the seed before it runs; programs set the seed before partitioning on every path',
  note='Interleavings of several threads are outside: which thread draws first is not determined by the seed.')

prop('C07', 'Graph handles and views answer as the graph they wrap',
  'A graph handle or partition view answers every query about the graph with the answer the wrapped graph gives for the same arguments, whatever its representation. Within each graph class the queries agree: node and edge ranges, degrees, adjacency loops, degree buckets, weights and totals, colour classes, ownership, offsets and the conversion between local and global node IDs all describe the same arrays.',
  ['inputs', 'configurations'], 'all queries of the shared-memory and distributed graph classes, their handles and the partitioned and delta-partitioned views',
  'Tests query a few small graphs through one representation; an off-by-one in a range, bucket or ownership query shows only for particular nodes, ranks or representations.',
  ['kaminpar-shm/datastructures/graph.h', 'kaminpar-shm/datastructures/csr_graph.h', 'kaminpar-shm/datastructures/compressed_graph.h', 'kaminpar-dist/datastructures/distributed_csr_graph.h', 'kaminpar-dist/datastructures/distributed_compressed_graph.h'],
  [('Graph, GraphDelegate', 'kaminpar-shm/datastructures/graph.h'), ('DistributedGraph', 'kaminpar-dist/datastructures/distributed_graph.h')],
  module='facade', floor=520, level='proof', technique='symbolic value numbering of every query down to the fields, compared with its definition in terms of the other queries by truth table over the conditions',
  rules='wrappers: on every path exactly one call of the same query with the same arguments, its result returned; classes: ranges, degrees, buckets, colours, ownership, offsets, local/global conversion and adjacency loops equal their definitions; constructors record sizes and offsets of the arrays they take; recorded bucket sizes, weights, degrees and global totals equal those of the arrays, also after isolated nodes are cut off or put back; a visitor that answers true ends the visit; the compressed classes answer as the neighborhoods they hold',
  note='The decoding of compressed neighborhoods is not evaluated.')

prop('C22', 'Objects and variables have a value before they are read; copies are complete',
  'Every constructor gives every plain member (number, flag, enumeration, pointer) of the object a value, or the set-up step of the class does so on all its paths before anything reads the member. Copying, moving or assigning an object takes over every member from the same member of the source. Local variables are read only after they have been given a value, on every path.',
  ['inputs', 'configurations'], 'all constructors, copy and move operations and local variables of the libraries, programs and tools',
  'Uninitialised memory is often zero in tests; a forgotten member of a copy shows only for objects in which that member differs from its default.',
  ['kaminpar-shm/datastructures/csr_graph.cc', 'kaminpar-dist/context.cc', 'kaminpar-common/graph_compression/compressed_edges_builder.h', 'apps/io/file_toker.h'],
  [('CSRGraph constructors', 'kaminpar-shm/datastructures/csr_graph.cc'), ('PartitionContext copy', 'kaminpar-dist/context.cc')],
  module='construct', floor=480, level='proof', technique='definite-assignment data-flow analysis on the control-flow graph of constructors, set-up steps and clients; member-wise comparison of copy and move operations',
  rules='every scalar member without default: in the initialiser list or assigned on all paths of each constructor, else assigned on all paths by a set-up step (local objects: before any call that reads it); user-written copy/move/assign: each member set from the same member of the other object; scalar locals: no read reachable without assignment (correlated conditions kept apart, loops run at least once)',
  note='Members that are objects rely on their own constructors. Order of set-up and use is decided for local objects only. A command-line option that need not be given does not count as giving its variable a value.')

prop('C18', 'Parallel loops and tasks do not lose updates to shared variables',
  'The body of a parallel loop changes a variable, container or array element that its iterations share only atomically, under a lock, behind a successful compare-and-swap, or in a copy of its own thread; elements it updates without that belong to its own iteration. A task that is started in a loop owns the values of the iteration that started it.',
  ['schedules', 'inputs'], 'all bodies of parallel loops and tasks in the libraries and programs together with the functions they call',
  'A lost update needs two threads to collide on the same element within nanoseconds; tests on small graphs practically never see it, and the result is a wrong weight or counter rather than a crash.',
  ['kaminpar-shm/label_propagation.h', 'kaminpar-shm/refinement/gains/dense_gain_cache.h', 'kaminpar-dist/refinement/lp/clp_refiner.cc', 'kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc', 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h'],
  [('DenseGainCache::move', 'kaminpar-shm/refinement/gains/dense_gain_cache.h'), ('BaseContext::set_block', 'kaminpar-dist/datastructures/distributed_partitioned_graph.h')],
  module='races', floor=180, level='bounded', technique='interprocedural effect analysis of parallel bodies: ownership of what is written (own iteration, own thread, shared), origin of element indices, locks, compare-and-swap guards',
  rules="no unsynchronised write of a shared scalar, no growth of a shared container, no read-modify-write of an element at an index found through data, no element written by every iteration, no update made of a separate load and store (also through setters and getters, maxima, and test-then-set claims), a thread's own copy is fetched inside the body; tasks capture variables of the surrounding loop by value",
  note='Plain overwrites of elements at data-dependent indices are reported only where every iteration hits the same element; reads that race with writes are outside.')

prop('C15', 'All processes take part in every collective operation',
  'Whether a process of the distributed partitioner reaches a collective operation (barrier, broadcast, reduction, gather, scan, all-to-all, ghost exchange, splitting of a communicator) depends only on values that are the same on all processes of its communicator: no such operation is guarded, skipped by an early return or repeated by a loop according to the rank, the local part of the graph, received data or random numbers of the process, unless both branches perform the same operations. No collective operation is performed by the iterations of a parallel loop.',
  ['schedules', 'inputs', 'configurations'], 'all functions of the distributed partitioner, its communication layer and programs, in every context they are called from',
  'One process that leaves a loop early hangs all the others, but only for graph distributions and process counts where the local values differ; the tests run with one or few processes, and here not at all.',
  ['kaminpar-dist/refinement/lp/lp_refiner.cc', 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', 'kaminpar-dist/partitioning/deep_multilevel.cc', 'kaminpar-dist/graphutils/replicator.cc', 'kaminpar-dist/algorithms/greedy_node_coloring.h'],
  [('LPRefinerImpl::process_chunk', 'kaminpar-dist/refinement/lp/lp_refiner.cc'), ('DeepMultilevelPartitioner::partition', 'kaminpar-dist/partitioning/deep_multilevel.cc')],
  module='collectives', floor=340, level='bounded', technique='interprocedural abstract interpretation that tracks which values are process-local (taint, sanitised by reductions) along data and control flow to every collective call',
  rules='per collective call: the labels of the conditions that control it (branches, loops, early exits, callers) contain no process-local source; sub-communicators: colours of the split are uniform within them; branches with the same sequence of collectives (of the same kind of exchange) are equivalent; communication layer: the messages handed in count as process-local',
  note='Members of program objects carry labels per class, not per object. Termination and the order of point-to-point messages are outside.')

prop('C16', 'Communication calls and their buffers agree in type, count and root',
  'Every communication call describes its buffers with the datatype and the count unit that the elements of the buffers have, and the sending and the receiving side of an operation use the same type, root and reduction. Reductions are only applied to types they are defined for, and messages are plain data. Every nonblocking transfer that is started is completed before its buffers and requests go out of scope.',
  ['inputs', 'configurations', 'schedules'], 'all communication calls of the distributed partitioner and its communication layer, with every instantiation of the wrappers',
  'With one process nothing is transferred; with several a datatype that is too narrow or too wide corrupts memory only if the two types differ in size, for instance in 64-bit builds.',
  ['kaminpar-mpi/datatype.h', 'kaminpar-mpi/wrapper.h', 'kaminpar-mpi/alltoall.h', 'kaminpar-dist/graphutils/replicator.cc', 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc'],
  [('mpi::type::get', 'kaminpar-mpi/datatype.h'), ('replicate_graph', 'kaminpar-dist/graphutils/replicator.cc')],
  module='messages', floor=550, level='bounded', technique='type analysis of communication calls (element type of the buffer against the datatype argument, resolved through the wrappers), pairing of the two branches of a decision, typestate of requests',
  rules='datatype argument describes the pointee type; send and receive types equal; the branches that meet in one collective agree in type, root, operation and guard; pair types laid out as the predefined pair; table of predefined types correct; every request reaches a wait on all paths, every transfer has a request of its own, and the wait is not skipped while transfers run; sizes asked in the type received; message types trivially copyable; in operations with one count per process the counts of sent and received elements are kept apart, positions are the prefix sums of (or counts the differences of) their own counterpart, the receive buffer is sized by the receiving side, and what counts nodes is not mixed with what counts edges; counts are elements, not bytes; roots carry no process-local value (labels as in C15) and agree within a block; tags of sends and receives agree; wrappers hand on every parameter',
  note='Counts are compared by origin and unit, not by value.')

prop('C20', 'Edge IDs, weights, cuts and gains keep all their bits in 64-bit builds',
  'In builds with 64-bit types, edge IDs, node and edge weights, cuts and gains are never stored in, passed as or summed up in a narrower type, except values that are checked for fit or bounded by a degree. Weights, cuts and gains that are summed over all processes are summed in the global weight type, and sizes of tables with an entry per node and block are computed with 64 bits in every build.',
  ['inputs', 'configurations'], 'all conversions, sums and products of edge IDs and weights in both libraries, in the 64-bit configuration of the types',
  'Truncation needs graphs with more than 2^32 edges or weights beyond 2^31, and a build with other types than the tested one.',
  ['include/kaminpar-shm/kaminpar.h', 'include/kaminpar-dist/dkaminpar.h', 'kaminpar-shm/coarsening/max_cluster_weights.h', 'kaminpar-dist/refinement/jet/jet_refiner.cc', 'kaminpar-dist/graphutils'],
  [('EdgeID, NodeWeight, EdgeWeight', 'include/kaminpar-shm/kaminpar.h'), ('GlobalNodeWeight, GlobalEdgeWeight', 'include/kaminpar-dist/dkaminpar.h')],
  module='widths', floor=260, level='bounded', technique='type analysis with distinct 64-bit types substituted for edge IDs and weights (every implicit and explicit narrowing conversion of such a value), accumulator types of sums, operand types of size products, element types of reductions over processes',
  rules='no implicit or explicit conversion of an edge ID or weight to fewer bits unless it is a degree, a mask, clamped by a narrow bound or checked; initial value of a sum as wide as its elements; degree sums in EdgeID; products of two 32-bit counts not used as 64-bit size; MPI_SUM of weights in the global type',
  note='Degrees are assumed to fit into NodeID, as the API documents.')

prop('C10', 'Gain caches report the connections of the current assignment',
  'After initialisation, and after every move it is told about, a gain cache of the shared-memory library reports for every node and block the total weight of the edges between them, border nodes are those with edges to other blocks, and a gain is the connection to the target minus the connection to the current block. When a gain cache enumerates gains, it offers every other block, or every other adjacent block, with its own value and never the current block. Refinement algorithms that keep a gain cache tell it every change of the assignment, with the block the node came from, and discard local changes of the partition and of the cache together.',
  ['inputs', 'configurations', 'schedules'], 'all gain cache and delta gain cache classes, with their normal and large-k variants, and the FM, Jet and balancing code that uses them',
  'A wrong connection only makes moves worse, never invalid; the tests ask for a few gains on tiny graphs, mostly without degree-dependent tables.',
  ['kaminpar-shm/refinement/gains', 'kaminpar-common/datastructures/compact_hash_map.h', 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'kaminpar-shm/refinement/jet/jet_refiner.cc', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc'],
  [('conn, gain, gains, move, is_border_node', 'kaminpar-shm/refinement/gains/sparse_gain_cache.h'), ('LocalizedFMRefiner::run_batch', 'kaminpar-shm/refinement/fm/fm_refiner.cc')],
  module='gains', floor=430, level='bounded', technique='value numbering of every path of every cache method (what conn() reads as a function of node and block, compared with what move(), gain(), gains(), is_border_node() and initialize() write and return), dataflow pairing of assignment changes and cache moves in the clients; closed terms (entries, positions, widths, offsets, sizes of the tables) taken from the source and decided on truth tables over small words, tables and degrees',
  rules='every path of move(): entry of conn(neighbour, from) -= w and entry of conn(neighbour, to) += w, nothing else; gain = conn(to) - conn(from); gains() guarded by to != from only (and conn > 0), values are conn or differences; border = weighted degree != conn(own block); initialisation sums all edges onto zero; every set_block paired with a move of the same node to the same block; hash map: key and value come back from the entry as stored, searches start at the home position, step by one and end only at an empty entry, the entry of the key or after all entries, removal moves exactly the entries that may move and clears the last hole, every entry is visited; tables: enough bits for the weighted degree and the block, enough bytes for every neighbour or block, pointers as wide as the entries, ranges of nodes, buckets and tables that meet, sizes not taken from arrays that only grow; the lock bit is not part of the weighted degree',
  note='Truth tables use words of 8 bits and tables of 8 entries (positions), and all small degrees and block counts; two delta caches over the compact cache are too large to enumerate and reported as undecided.')

prop('C19', 'Locks, ownership claims and compare-and-swap updates lose nothing',
  'A compare-and-swap update of shared data (block weights, node locks, node ownership, maxima, matchings) works on a current value, takes effect once, and after a failure is retried or given up only because its condition no longer holds, so that no concurrent update is lost. Every lock or claim on a node that a thread acquires is released again on every path, after the writes it protects, and no two threads hold it at once. Data that is guarded by a lock or mutex is changed only while it is held.',
  ['schedules', 'inputs'], 'all compare-and-swap loops, the node locks of the gain caches, node ownership in FM, and the mutexes of the timers, the heap profiler and the random number generators',
  'A lost update or a leaked lock needs two threads in a window of a few instructions; the tests run on graphs with so few nodes that this does not happen.',
  ['kaminpar-shm/refinement/gains', 'kaminpar-shm/refinement/fm', 'kaminpar-shm/datastructures/partitioned_graph.h', 'kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc', 'kaminpar-common/timer.h', 'kaminpar-common/heap_profiler.cc', 'kaminpar-common/random.cc'],
  [('move_block_weight', 'kaminpar-shm/datastructures/partitioned_graph.h'), ('NodeTracker', 'kaminpar-shm/refinement/fm/node_tracker.h'), ('lock, unlock', 'kaminpar-shm/refinement/gains/sparse_gain_cache.h')],
  module='locks', floor=380, level='bounded', technique='typestate over the control-flow graphs: outcome and freshness of every compare-and-swap, held locks per node, claimed nodes and the lists they are remembered in; lock-set consistency of fields; memory orders',
  rules='expected value read from the location or a constant set anew; stored value not computed from an outdated one; outcome tested, no second exchange after success, no silent loss after failure, the admitting test repeated before a retry; lock bit clear before it is set; acquire/release orders; lock(v) ... unlock(v) for the same node on every path, one lock at a time, table updates in between; lock bit masked off when the word is read; a claimed node is remembered and released on every path; worker IDs differ from the free value; guards are named objects; a field written under the mutex of its class is written under it everywhere; no load-compute-store on atomics; slots come from the increment of the counter',
  note='Set-up, seeding and reporting functions are taken to run while nothing else does (listed in rules/locks.py). Locks are identified by the text of the node expression within one function.')

prop('C31', 'Reported cut, imbalance and feasibility are those of the partition handed out',
  'The cut that partitioning returns and prints is the total weight of the edges between different blocks, every undirected edge counted once, of the very partition handed to the caller; the imbalance is the relative excess of the heaviest block over the perfectly balanced block weight, and a partition counts as feasible or balanced exactly if every block weighs at most its own limit, its overload being what exceeds the limits. Every input node receives the block that this partition has for it, also if the input graph was rearranged or isolated nodes were set aside and put back.',
  ['inputs', 'configurations'], 'the measuring functions of both libraries, every place that prints their results, both facades, and the handling of rearranged graphs and isolated nodes',
  'Cut and balance decide which partition is kept and are what users compare; a wrong factor, limit, block or range shows only on graphs with weights, several limits, isolated nodes or rearrangement.',
  ['kaminpar-shm/metrics.h', 'kaminpar-dist/metrics.cc', 'kaminpar-shm/kaminpar.cc', 'kaminpar-dist/dkaminpar.cc', 'kaminpar-shm/datastructures/csr_graph.cc', 'kaminpar-shm/graphutils/permutator.cc'],
  [('edge_cut, imbalance, is_balanced', 'kaminpar-shm/metrics.h'), ('KaMinPar::compute_partition', 'kaminpar-shm/kaminpar.cc'), ('integrate_isolated_nodes', 'kaminpar-shm/datastructures/csr_graph.cc'), ('assign_isolated_nodes', 'kaminpar-shm/graphutils/permutator.cc')],
  module='report', floor=240, level='bounded', technique='value numbering of every path of the measuring functions and the facades: what is added for which element over which range under which condition, compared with the definition of the measure; control-flow order of measuring and handing out; provenance of labelled output',
  rules='cut: += weight of the edge exactly if the blocks of its end points differ, all nodes, all neighbours, halved iff both directions are counted, summed over processes; overload: weight - limit of the same block, positive part only; balanced: all blocks, weight <= own limit; imbalance: max over all blocks of weight / ceil(total / k) - 1 in real numbers; output[u] = block(permutation(u)) for all nodes iff permuted; returned cut is that of the object written out, which is not replaced afterwards; what remove_isolated_nodes takes off, integrate_isolated_nodes puts back; printed labels name the function their value comes from',
  note='Shapes that are not recognised are reported as undecided, not as violations. Floating-point rounding of the imbalance is not judged.')

prop('C30', 'Parallel sums, maxima and prefix sums equal their sequential results',
  'A parallel sum, maximum or prefix sum covers every element of its input exactly once, combines partial results with the operation they were made with, and includes the initial value, so its result is that of the sequential loop however the range is split among threads. Thread-local partial results are combined by an operation that does not depend on their order, and a prefix sum written in place reads no element that it has overwritten. Splitting a range among threads or processes yields consecutive parts that meet and together are the whole range.',
  ['inputs', 'schedules'], 'the parallel algorithms and loop splitters of the common library and every place that combines thread-local results or computes prefix sums',
  'How a range is split depends on its length, the number of threads and work stealing: a wrong join, identity or carry shows only for particular splits, and the tests use a few short inputs.',
  ['kaminpar-common/parallel/algorithm.h', 'kaminpar-common/parallel/loops.h', 'kaminpar-common/parallel/aligned_prefix_sum.h', 'kaminpar-common/parallel/vector_ets.h', 'kaminpar-common/math.h'],
  [('accumulate, max_element, max_difference, prefix_sum', 'kaminpar-common/parallel/algorithm.h'), ('deterministic_for, chunked_for', 'kaminpar-common/parallel/loops.h'), ('compute_local_range', 'kaminpar-common/math.h')],
  module='reduce', floor=130, level='bounded', technique='value numbering of every path of the reduction bodies, scan lambdas and splitters, compared with the algebra a reduction has to obey (fold over the range, join with the same operation, neutral start); linear arithmetic on the bounds of the parts; queries over all combination and prefix-sum sites',
  rules='body: continues from its own result, every index of [begin, end) once, same operation in operator() and join(), split-off bodies copy all inputs and start neutral; caller: range [0, length), result = initial + sum; scan: starts from the value handed in, adds in both passes, stores the inclusive sum in the final pass only, returns the total, parts are added; combine: symmetric operation that fits how the copies were filled; loops over the copies take in every copy, from its first element, and empty copies that are used again; prefix sum: one array from begin to end, in place or into an array with room; parts: to(rank) = from(rank + 1)',
  note='Rounding of floating-point sums and overflow are not judged here (widths: C20).')

# ---------------------------------------------------------------- outside the reach of static analysis
prop('N01', 'The computed partition respects the block weight limits',
  'For every graph and every feasible limit, no block of the returned partition is heavier than its maximum block weight.',
  ['inputs', 'configurations', 'schedules'], 'all graphs, weights, block counts and limits',
  'The tests check it for a handful of unweighted grids.',
  ['kaminpar-shm/kaminpar.cc', 'kaminpar-shm/refinement/balancer'],
  [('KaMinPar::compute_partition', 'kaminpar-shm/kaminpar.cc')],
  na='whether the balancers reach the limit depends on the weights and the order of moves at run time; no dataflow abstraction of the sums of weights is precise enough to decide it (the bookkeeping it relies on is decided under C08, the guards of the moves under C09)')
prop('N02', 'Refinement never returns a worse partition than it was given',
  'For every feasible partition, a refinement algorithm returns a partition whose edge cut is not larger.',
  ['inputs', 'schedules'], 'all graphs and partitions',
  'Tests compare cuts on small graphs only.',
  ['kaminpar-shm/refinement'], [('Refiner::refine', 'kaminpar-shm/refinement/refiner.h')],
  na='the cut is a sum over run-time data and concurrent moves may worsen it between a gain computation and its application; a static argument would have to bound these sums')
prop('N03', 'Compressed neighborhoods decode to the neighborhood that was encoded',
  'For every neighborhood, decoding yields the neighbours and edge weights that were encoded, whatever their number, gaps and intervals.',
  ['inputs'], 'all neighborhoods and all compression variants',
  'Tests compress a few graphs; the interval and high-degree encodings need particular neighborhoods.',
  ['kaminpar-common/graph_compression'], [('CompressedNeighborhoods::decode', 'kaminpar-common/graph_compression/compressed_neighborhoods.h')],
  na='inversion of the bit-level encoding quantifies over values; it needs symbolic execution with a solver or tests, both outside this family')
prop('N04', 'Every loop terminates',
  'Partitioning terminates for every input: rounds, retry loops and message loops make progress.',
  ['inputs', 'schedules'], 'all loops of the library', 'A livelock needs a particular graph or schedule.',
  ['kaminpar-shm', 'kaminpar-dist'], [('ClusterCoarsener::coarsen', 'kaminpar-shm/coarsening/cluster_coarsener.cc')],
  na='the progress measures (shrink factors, gains, convergence thresholds) are floating point and data dependent; no ranking function can be derived from the source')
prop('N05', 'Concurrent data structures are linearizable',
  'The concurrent hash tables, bit sets, queues and rating maps behave as if their operations took effect one after another.',
  ['schedules'], 'all interleavings of their operations', 'Tests run few interleavings.',
  ['kaminpar-common/datastructures'], [('CompactHashMap', 'kaminpar-common/datastructures/compact_hash_map.h')],
  na='it quantifies over interleavings of reads and writes with relaxed memory orders; that needs exploration of schedules, not a static rule (lost updates of shared variables are decided under C18)')
