From 7244ff17578d72dee2251a3fb9584a68abb24fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 01/28] fix: initial FM refiner selects the configured stopping
 rule

The arms of create_initial_refiner() for the simple and the adaptive stopping
rule were exchanged, so that each rule ran the other one's policy.
---
 kaminpar-shm/initial_partitioning/initial_refiner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/initial_partitioning/initial_refiner.cc b/kaminpar-shm/initial_partitioning/initial_refiner.cc
index 4c68994..5d1d27b 100644
--- a/kaminpar-shm/initial_partitioning/initial_refiner.cc
+++ b/kaminpar-shm/initial_partitioning/initial_refiner.cc
@@ -20,10 +20,10 @@ std::unique_ptr<InitialRefiner> create_initial_refiner(const InitialRefinementCo
 
   switch (r_ctx.stopping_rule) {
   case FMStoppingRule::ADAPTIVE:
-    return std::make_unique<InitialSimple2WayFM>(r_ctx);
+    return std::make_unique<InitialAdaptive2WayFM>(r_ctx);
 
   case FMStoppingRule::SIMPLE:
-    return std::make_unique<InitialAdaptive2WayFM>(r_ctx);
+    return std::make_unique<InitialSimple2WayFM>(r_ctx);
   }
 
   __builtin_unreachable();
-- 
2.43.0


From d893b216c6f5aedd15dcb0a5e7c6dc66ecd9847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 02/28] fix: the short option -v is no longer claimed by both
 --version and --verbose

---
 apps/KaMinPar.cc  | 2 +-
 apps/dKaMinPar.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index 77b42e7..d081845 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -100,7 +100,7 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
       ->configurable(false)
       ->description(R"(Print the current configuration and exit.
 The output should be stored in a file and can be used by the -C,--config option.)");
-  mandatory->add_flag("-v,--version", app.show_version, "Show version and exit.");
+  mandatory->add_flag("--version", app.show_version, "Show version and exit.");
 
   // Mandatory -> ... or partition a graph
   auto *gp_group = mandatory->add_option_group("Partitioning")->silent();
diff --git a/apps/dKaMinPar.cc b/apps/dKaMinPar.cc
index 6cbae51..ad55b60 100644
--- a/apps/dKaMinPar.cc
+++ b/apps/dKaMinPar.cc
@@ -109,7 +109,7 @@ void setup_context(CLI::App &cli, ApplicationContext &app, Context &ctx) {
       ->configurable(false)
       ->description(R"(Print the current configuration and exit.
 The output should be stored in a file and can be used by the -C,--config option.)");
-  mandatory->add_flag("-v,--version", app.show_version, "Show version and exit.");
+  mandatory->add_flag("--version", app.show_version, "Show version and exit.");
 
   // Mandatory -> ... or partition a graph
   auto *gp_group = mandatory->add_option_group("Partitioning")->silent();
-- 
2.43.0


From 67c9707fa9665252aa5b570d4b498a5297c2c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 03/28] fix: the short option -C of dKaMinPar is no longer
 claimed by both --config and --c-contraction-limit

---
 kaminpar-cli/dkaminpar_arguments.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-cli/dkaminpar_arguments.cc b/kaminpar-cli/dkaminpar_arguments.cc
index 4c1f2b9..6e39dad 100644
--- a/kaminpar-cli/dkaminpar_arguments.cc
+++ b/kaminpar-cli/dkaminpar_arguments.cc
@@ -422,7 +422,7 @@ CLI::Option_group *create_coarsening_options(CLI::App *app, Context &ctx) {
 
   coarsening
       ->add_option(
-          "-C,--c-contraction-limit", ctx.coarsening.contraction_limit, "Contraction limit."
+          "--c-contraction-limit", ctx.coarsening.contraction_limit, "Contraction limit."
       )
       ->capture_default_str();
   coarsening
-- 
2.43.0


From 5c1d9f4ef4e8f47ad68be5072eeb5a87bcc6fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/28] fix: output files describe the right number of blocks
 if block weights are given explicitly

---
 apps/KaMinPar.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/KaMinPar.cc b/apps/KaMinPar.cc
index d081845..620e7e4 100644
--- a/apps/KaMinPar.cc
+++ b/apps/KaMinPar.cc
@@ -457,6 +457,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weight_factors.size());
     partitioner.compute_partition(
         std::move(app.max_block_weight_factors), {partition.data(), partition.size()}
     );
@@ -471,6 +472,7 @@ int main(int argc, char *argv[]) {
       std::exit(1);
     }
 
+    app.k = static_cast<BlockID>(app.max_block_weights.size());
     partitioner.compute_partition(
         std::move(app.max_block_weights), {partition.data(), partition.size()}
     );
-- 
2.43.0


From 6b14a7a12fd4359db596cd078e68417689e486a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 05/28] fix: the coarsener compiles with 64 bit node IDs
 (communities are node IDs, not block IDs)

---
 kaminpar-shm/coarsening/contraction/cluster_contraction.h       | 2 +-
 .../coarsening/contraction/cluster_contraction_preprocessing.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction.h b/kaminpar-shm/coarsening/contraction/cluster_contraction.h
index 6da4657..6213b9d 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction.h
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction.h
@@ -27,7 +27,7 @@ public:
 
   virtual void project_up(std::span<const BlockID> coarse, std::span<BlockID> fine) = 0;
 
-  virtual void project_down(std::span<const BlockID> fine, std::span<BlockID> coarse) = 0;
+  virtual void project_down(std::span<const NodeID> fine, std::span<NodeID> coarse) = 0;
 };
 
 namespace contraction {
diff --git a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
index 12ec1a7..eaeba07 100644
--- a/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
+++ b/kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h
@@ -35,7 +35,7 @@ public:
     });
   }
 
-  void project_down(std::span<const BlockID> fine, const std::span<BlockID> coarse) final {
+  void project_down(std::span<const NodeID> fine, const std::span<NodeID> coarse) final {
     tbb::parallel_for<std::size_t>(0, fine.size(), [&](const std::size_t i) {
       __atomic_store_n(&coarse[_mapping[i]], fine[i], __ATOMIC_RELAXED);
     });
-- 
2.43.0


From fc66ecb54ba26c60b1a77d490fa7a9b724d6a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 06/28] fix: unassigned nodes contribute to no block weight if
 there are at least 65536 blocks

---
 kaminpar-shm/datastructures/partitioned_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/datastructures/partitioned_graph.h b/kaminpar-shm/datastructures/partitioned_graph.h
index 40f6068..d84034b 100644
--- a/kaminpar-shm/datastructures/partitioned_graph.h
+++ b/kaminpar-shm/datastructures/partitioned_graph.h
@@ -273,7 +273,9 @@ private:
   void init_block_weights_par() {
     if (k() >= 65536) {
       this->pfor_nodes([&](const NodeID u) {
-        __atomic_fetch_add(&_block_weights[block(u)], this->node_weight(u), __ATOMIC_RELAXED);
+        if (const BlockID b = block(u); b != kInvalidBlockID) {
+          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);
+        }
       });
       return;
     }
-- 
2.43.0


From e88ab439c30021b71b3a324bcc5d025343a825e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 07/28] fix: assertions of the node balancer no longer draw
 random numbers

---
 kaminpar-dist/refinement/balancer/node_balancer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/refinement/balancer/node_balancer.cc b/kaminpar-dist/refinement/balancer/node_balancer.cc
index b8b71e3..9043c9a 100644
--- a/kaminpar-dist/refinement/balancer/node_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/node_balancer.cc
@@ -545,7 +545,10 @@ private:
 
         KASSERT(
             [&] {
-              const auto max_gainer = _gain_calculator.compute_max_gainer(node, _p_ctx);
+              // Do not draw random numbers in assertions: they would change the partition
+              DeterministicGainCalculator<Graph> gain_calculator(_p_ctx.k);
+              gain_calculator.init(_p_graph, _graph);
+              const auto max_gainer = gain_calculator.compute_max_gainer(node, _p_ctx);
 
               if (gain != max_gainer.relative_gain()) {
                 LOG_WARNING << "bad relative gain for node " << node << ": " << gain
-- 
2.43.0


From 112ea32bee2555bbb443ce6df89641c955232e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 08/28] fix: copying a graph into adjacency arrays initialises
 its order and maximum node weight

---
 kaminpar-shm/datastructures/csr_graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 4700bd1..1e97aa9 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -24,6 +24,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       _edges(graph.m()),
       _node_weights(graph.n()),
       _edge_weights(graph.m()),
+      _sorted(graph.sorted()),
       _buckets(kNumberOfDegreeBuckets<NodeID> + 1) {
   graph.reified([&](const auto &graph) {
     _nodes.front() = 0;
@@ -42,6 +43,7 @@ CSRGraph::CSRGraph(const Graph &graph)
       });
     });
 
+    _max_node_weight = graph.max_node_weight();
     _total_node_weight = graph.total_node_weight();
     _total_edge_weight = graph.total_edge_weight();
     _max_degree = graph.max_degree();
-- 
2.43.0


From ea8192a6628f41bd4eb84e21b603fed9a5fe8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 09/28] fix: sequentially constructed graphs know their maximum
 degree

---
 kaminpar-shm/datastructures/csr_graph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kaminpar-shm/datastructures/csr_graph.cc b/kaminpar-shm/datastructures/csr_graph.cc
index 1e97aa9..ff93299 100644
--- a/kaminpar-shm/datastructures/csr_graph.cc
+++ b/kaminpar-shm/datastructures/csr_graph.cc
@@ -114,6 +114,11 @@ CSRGraph::CSRGraph(
         std::accumulate(_edge_weights.begin(), _edge_weights.end(), static_cast<EdgeWeight>(0));
   }
 
+  _max_degree = 0;
+  for (const NodeID u : this->nodes()) {
+    _max_degree = std::max(_max_degree, degree(u));
+  }
+
   // TODO: Use a sequential routine to initialize degree buckets since work isolation can otherwise
   // be violated. However, this does not currently pose a problem as it is not called in parallel.
   init_degree_buckets();
-- 
2.43.0


From 10bda1f3d1218419a4da3d478cb026575effc696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 10/28] fix: heap profilers start without a peak node and
 source position

---
 kaminpar-common/heap_profiler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kaminpar-common/heap_profiler.h b/kaminpar-common/heap_profiler.h
index aa1cc45..ab1832a 100644
--- a/kaminpar-common/heap_profiler.h
+++ b/kaminpar-common/heap_profiler.h
@@ -510,7 +510,7 @@ private:
 
   NoProfileAllocator<HeapProfileTreeNode> _node_allocator;
   HeapProfileTree _tree;
-  HeapProfileTreeNode *_peak_memory_node;
+  HeapProfileTreeNode *_peak_memory_node = nullptr;
   std::unordered_map<
       const void *,
       std::size_t,
@@ -522,8 +522,8 @@ private:
   NoProfileAllocator<DataStructure> _struct_allocator;
   std::string_view _var_name;
   std::string_view _file_name;
-  std::size_t _line;
-  std::size_t _column;
+  std::size_t _line = 0;
+  std::size_t _column = 0;
 
   std::size_t _max_depth = std::numeric_limits<std::size_t>::max();
   bool _highlight_peak_memory_node = true;
-- 
2.43.0


From a65bd5bd70a4b2c8ebc6fba08e3eb2701fb3656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 11/28] fix: colored LP and coloring checks: unsynchronised
 updates of shared sums in parallel loops

---
 kaminpar-dist/algorithms/greedy_node_coloring.h | 2 +-
 kaminpar-dist/refinement/lp/clp_refiner.cc      | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kaminpar-dist/algorithms/greedy_node_coloring.h b/kaminpar-dist/algorithms/greedy_node_coloring.h
index 0bf49db..4177934 100644
--- a/kaminpar-dist/algorithms/greedy_node_coloring.h
+++ b/kaminpar-dist/algorithms/greedy_node_coloring.h
@@ -184,7 +184,7 @@ compute_node_coloring_sequentially(const Graph &graph, const NodeID number_of_su
                 const auto [node, color] = recv_buffer[i];
                 const NodeID local_node = graph.global_to_local_node(node);
                 if (coloring[local_node] != color) {
-                  inconsistent = true;
+                  __atomic_store_n(&inconsistent, true, __ATOMIC_RELAXED);
                 }
               });
             }
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index b49e272..7f876e3 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -635,7 +635,7 @@ ColoredLPRefiner::try_probabilistic_moves(const ColorID c, const BlockGainsConta
   const NodeID seq_from = _color_sizes[c];
   const NodeID seq_to = _color_sizes[c + 1];
 
-  EdgeWeight total_gain = 0;
+  parallel::Atomic<EdgeWeight> total_gain = 0;
 #if KASSERT_ENABLED(ASSERTION_LEVEL_NORMAL)
   const GlobalEdgeWeight edge_cut_before = metrics::edge_cut(_p_graph);
 #endif
@@ -862,8 +862,8 @@ NodeID ColoredLPRefiner::find_moves(const ColorID c) {
           ++num_moved_nodes;
 
           if (_ctx.track_local_block_weights) {
-            _block_weight_deltas[u_block] -= u_weight;
-            _block_weight_deltas[best_block] += u_weight;
+            __atomic_fetch_sub(&_block_weight_deltas[u_block], u_weight, __ATOMIC_RELAXED);
+            __atomic_fetch_add(&_block_weight_deltas[best_block], u_weight, __ATOMIC_RELAXED);
           }
         }
 
@@ -897,7 +897,7 @@ void ColoredLPRefiner::GainStatistics::initialize(const ColorID c) {
 void ColoredLPRefiner::GainStatistics::record_gain(const EdgeWeight gain, const ColorID c) {
   KASSERT(!_gain_per_color.empty(), "must call initialize() first");
   KASSERT(c < _gain_per_color.size());
-  _gain_per_color[c] += gain;
+  __atomic_fetch_add(&_gain_per_color[c], gain, __ATOMIC_RELAXED);
 }
 
 void ColoredLPRefiner::GainStatistics::summarize_by_size(
-- 
2.43.0


From edca5d0d056617dd3f37fa247203db022ad9c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 12/28] fix: all processes of a group agree on whether to write
 the coarsest graph and partition

Processes of the same group take part in the collective operations of the
debug output; the decision was based on the rank in the input communicator,
which differs within a group.
---
 kaminpar-dist/partitioning/deep_multilevel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-dist/partitioning/deep_multilevel.cc b/kaminpar-dist/partitioning/deep_multilevel.cc
index 03fab55..54916d4 100644
--- a/kaminpar-dist/partitioning/deep_multilevel.cc
+++ b/kaminpar-dist/partitioning/deep_multilevel.cc
@@ -11,6 +11,8 @@
 
 #include <mpi.h>
 
+#include "kaminpar-mpi/wrapper.h"
+
 #include "kaminpar-dist/context.h"
 #include "kaminpar-dist/datastructures/distributed_graph.h"
 #include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"
@@ -158,7 +160,7 @@ DistributedPartitionedGraph DeepMultilevelPartitioner::partition() {
   TIMER_BARRIER(_input_graph.communicator());
 
   // Only store coarsest graph + partition of PE group 0
-  if (initial_rank < current_num_pes) {
+  if (mpi::bcast(initial_rank, 0, graph->communicator()) == 0) {
     debug::write_coarsest_graph(*graph, _input_ctx.debug);
     debug::write_coarsest_partition(dist_p_graph, _input_ctx.debug);
   }
-- 
2.43.0


From 84d0e87251dc75be8f8113a80605408cf9376feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 13/28] fix: replicating a graph broadcasts edges with the same
 type on both sides

The receiving side of the secondary group used the type of local node IDs for
the array of global node IDs, and edge weights were broadcast with differing
counts if the graph has none.
---
 kaminpar-dist/graphutils/replicator.cc | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/kaminpar-dist/graphutils/replicator.cc b/kaminpar-dist/graphutils/replicator.cc
index 6c36f2d..0cd8d9b 100644
--- a/kaminpar-dist/graphutils/replicator.cc
+++ b/kaminpar-dist/graphutils/replicator.cc
@@ -388,13 +388,15 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
           secondary_root,
           secondary_comm
       );
-      MPI_Bcast(
-          edge_weights.data(),
-          asserting_cast<int>(edge_weights.size()),
-          mpi::type::get<EdgeWeight>(),
-          secondary_root,
-          secondary_comm
-      );
+      if (is_edge_weighted) {
+        MPI_Bcast(
+            edge_weights.data(),
+            asserting_cast<int>(edge_weights.size()),
+            mpi::type::get<EdgeWeight>(),
+            secondary_root,
+            secondary_comm
+        );
+      }
     } else {
       MPI_Bcast(
           nodes.data() + nodes_displs.back(),
@@ -406,17 +408,19 @@ DistributedGraph replicate_graph(const Graph &graph, const int num_replications)
       MPI_Bcast(
           tmp_global_edges.data() + edges_displs.back(),
           asserting_cast<int>(secondary_num_edges),
-          mpi::type::get<NodeID>(),
-          secondary_root,
-          secondary_comm
-      );
-      MPI_Bcast(
-          edge_weights.data() + edges_displs.back(),
-          asserting_cast<int>(secondary_num_edges),
-          mpi::type::get<EdgeWeight>(),
+          mpi::type::get<GlobalNodeID>(),
           secondary_root,
           secondary_comm
       );
+      if (is_edge_weighted) {
+        MPI_Bcast(
+            edge_weights.data() + edges_displs.back(),
+            asserting_cast<int>(secondary_num_edges),
+            mpi::type::get<EdgeWeight>(),
+            secondary_root,
+            secondary_comm
+        );
+      }
 
       tbb::parallel_for<NodeID>(
           nodes_displs.back(),
-- 
2.43.0


From 0269e14199666ab94f87235bd9f2731f477bbf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 14/28] fix: build_distribution gathers the counts with their
 own type on both sides

---
 .../coarsening/contraction/global_cluster_contraction.cc      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
index 556f040..082a1d7 100644
--- a/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
+++ b/kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc
@@ -524,10 +524,10 @@ template <typename T> StaticArray<T> build_distribution(const T count, MPI_Comm
   MPI_Allgather(
       &count,
       1,
-      mpi::type::get<NodeID>(),
+      mpi::type::get<T>(),
       distribution.data(),
       1,
-      mpi::type::get<GlobalNodeID>(),
+      mpi::type::get<T>(),
       comm
   );
   std::exclusive_scan(
-- 
2.43.0


From dcfa1652cb9d702214d043ccf09be9762039553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 15/28] fix: keep cuts and gains that are summed over all
 processes in GlobalEdgeWeight

The global edge cut and gains summed up over all processes were stored as
(32 bit) EdgeWeight, e.g., by KaMinPar::compute_partition(), which returned the
truncated value, and by the snapshooter, which compared truncated values.
---
 .../clustering/lp/global_lp_clusterer.cc      |  2 +-
 kaminpar-dist/dkaminpar.cc                    |  2 +-
 kaminpar-dist/refinement/jet/jet_refiner.cc   |  6 +++---
 kaminpar-dist/refinement/lp/clp_refiner.cc    | 21 ++++++++++---------
 kaminpar-dist/refinement/lp/clp_refiner.h     |  4 ++--
 kaminpar-dist/refinement/lp/lp_refiner.cc     |  8 +++----
 kaminpar-dist/refinement/lp/lp_stats.cc       |  8 +++----
 kaminpar-dist/refinement/lp/lp_stats.h        | 12 +++++------
 kaminpar-dist/refinement/snapshooter.cc       |  6 +++---
 kaminpar-dist/refinement/snapshooter.h        |  8 +++----
 10 files changed, 39 insertions(+), 38 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
index d91b802..d83f780 100644
--- a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
@@ -354,7 +354,7 @@ private:
     };
 
     const GlobalNodeID global_num_moved_nodes =
-        mpi::allreduce(local_num_moved_nodes, MPI_SUM, _graph->communicator());
+        mpi::allreduce<GlobalNodeID>(local_num_moved_nodes, MPI_SUM, _graph->communicator());
 
     control_cluster_weights(from, to);
 
diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index d4fb269..8507d92 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -366,7 +366,7 @@ GlobalEdgeWeight dKaMinPar::compute_partition(const BlockID k, BlockID *partitio
     );
   }
 
-  const EdgeWeight final_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight final_cut = metrics::edge_cut(p_graph);
 
 #ifdef KAMINPAR_ENABLE_TIMERS
   GLOBAL_TIMER.reset();
diff --git a/kaminpar-dist/refinement/jet/jet_refiner.cc b/kaminpar-dist/refinement/jet/jet_refiner.cc
index 9a02b97..1b1d471 100644
--- a/kaminpar-dist/refinement/jet/jet_refiner.cc
+++ b/kaminpar-dist/refinement/jet/jet_refiner.cc
@@ -144,8 +144,8 @@ public:
       int cur_fruitless_iteration = 0;
       int cur_iteration = 0;
 
-      const EdgeWeight initial_cut = metrics::edge_cut(_p_graph);
-      EdgeWeight best_cut = initial_cut;
+      const GlobalEdgeWeight initial_cut = metrics::edge_cut(_p_graph);
+      GlobalEdgeWeight best_cut = initial_cut;
 
       do {
         TIMER_BARRIER(_graph.communicator());
@@ -171,7 +171,7 @@ public:
         _balancer->initialize();
         _balancer->refine();
 
-        const EdgeWeight final_cut = metrics::edge_cut(_p_graph);
+        const GlobalEdgeWeight final_cut = metrics::edge_cut(_p_graph);
         const double final_l1 = metrics::imbalance_l1(_p_graph, _p_ctx);
         DBG0 << "Partition *after* rebalancing: cut=" << final_cut << ", l1=" << final_l1;
 
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index 7f876e3..0c2fc7f 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -354,8 +354,8 @@ NodeID ColoredLPRefiner::perform_best_moves(const ColorID c) {
   // Move nodes
   NodeID num_local_moved_nodes = 0;
 #if KASSERT_ENABLED(ASSERTION_LEVEL_NORMAL)
-  EdgeWeight expected_gain_improvement = 0;
-  const EdgeWeight edge_cut_before = metrics::edge_cut(_p_graph);
+  GlobalEdgeWeight expected_gain_improvement = 0;
+  const GlobalEdgeWeight edge_cut_before = metrics::edge_cut(_p_graph);
 #endif
 
   for (const MoveCandidate &candidate : move_candidates) {
@@ -385,7 +385,7 @@ NodeID ColoredLPRefiner::perform_best_moves(const ColorID c) {
       assert::heavy
   );
 #if KASSERT_ENABLED(ASSERTION_LEVEL_NORMAL)
-  const EdgeWeight edge_cut_after = metrics::edge_cut(_p_graph);
+  const GlobalEdgeWeight edge_cut_after = metrics::edge_cut(_p_graph);
   KASSERT(
       edge_cut_before - edge_cut_after == expected_gain_improvement,
       "edge cut change inconsistent with move gains"
@@ -571,7 +571,7 @@ NodeID ColoredLPRefiner::perform_probabilistic_moves(const ColorID c) {
   const NodeID seq_to = _color_sizes[c + 1];
 
   const auto block_gains = TIMED_SCOPE("Gather block gain and block weight gain values") {
-    parallel::vector_ets<EdgeWeight> block_gains_ets(_p_ctx.k);
+    parallel::vector_ets<GlobalEdgeWeight> block_gains_ets(_p_ctx.k);
     parallel::vector_ets<BlockWeight> block_weight_gains_ets(_p_ctx.k);
 
     _p_graph.pfor_nodes_range(seq_from, seq_to, [&](const auto &r) {
@@ -593,7 +593,7 @@ NodeID ColoredLPRefiner::perform_probabilistic_moves(const ColorID c) {
         MPI_IN_PLACE,
         block_gains.data(),
         asserting_cast<int>(_p_ctx.k),
-        mpi::type::get<EdgeWeight>(),
+        mpi::type::get<GlobalEdgeWeight>(),
         MPI_SUM,
         _p_graph.communicator()
     );
@@ -635,7 +635,7 @@ ColoredLPRefiner::try_probabilistic_moves(const ColorID c, const BlockGainsConta
   const NodeID seq_from = _color_sizes[c];
   const NodeID seq_to = _color_sizes[c + 1];
 
-  parallel::Atomic<EdgeWeight> total_gain = 0;
+  parallel::Atomic<GlobalEdgeWeight> total_gain = 0;
 #if KASSERT_ENABLED(ASSERTION_LEVEL_NORMAL)
   const GlobalEdgeWeight edge_cut_before = metrics::edge_cut(_p_graph);
 #endif
@@ -906,17 +906,18 @@ void ColoredLPRefiner::GainStatistics::summarize_by_size(
   KASSERT(!_gain_per_color.empty(), "must call initialize() first");
   KASSERT(_gain_per_color.size() <= color_sizes.size());
 
-  std::vector<EdgeWeight> gain_per_color_global(_gain_per_color.begin(), _gain_per_color.end());
+  std::vector<GlobalEdgeWeight> gain_per_color_global(_gain_per_color.begin(), _gain_per_color.end());
   MPI_Allreduce(
       MPI_IN_PLACE,
       gain_per_color_global.data(),
       asserting_cast<int>(gain_per_color_global.size()),
-      mpi::type::get<EdgeWeight>(),
+      mpi::type::get<GlobalEdgeWeight>(),
       MPI_SUM,
       comm
   );
-  const EdgeWeight total_gain =
-      parallel::accumulate(gain_per_color_global.begin(), gain_per_color_global.end(), 0);
+  const GlobalEdgeWeight total_gain = parallel::accumulate(
+      gain_per_color_global.begin(), gain_per_color_global.end(), static_cast<GlobalEdgeWeight>(0)
+  );
 
   std::vector<GlobalNodeID> global_color_sizes(_gain_per_color.size());
   for (ColorID c = 0; c < _gain_per_color.size(); ++c) {
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.h b/kaminpar-dist/refinement/lp/clp_refiner.h
index f214a60..cf0731c 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.h
+++ b/kaminpar-dist/refinement/lp/clp_refiner.h
@@ -35,7 +35,7 @@ private:
 };
 
 class ColoredLPRefiner : public GlobalRefiner {
-  using BlockGainsContainer = typename parallel::vector_ets<EdgeWeight>::Container;
+  using BlockGainsContainer = typename parallel::vector_ets<GlobalEdgeWeight>::Container;
 
   struct MoveCandidate {
     NodeID local_seq;
@@ -53,7 +53,7 @@ class ColoredLPRefiner : public GlobalRefiner {
     void summarize_by_size(const NoinitVector<ColorID> &color_sizes, MPI_Comm comm) const;
 
   private:
-    std::vector<EdgeWeight> _gain_per_color;
+    std::vector<GlobalEdgeWeight> _gain_per_color;
   };
 
 public:
diff --git a/kaminpar-dist/refinement/lp/lp_refiner.cc b/kaminpar-dist/refinement/lp/lp_refiner.cc
index 2d6ed42..8fa05ef 100644
--- a/kaminpar-dist/refinement/lp/lp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/lp_refiner.cc
@@ -161,11 +161,11 @@ private:
 
     // Accumulate total weight of nodes moved to each block
     std::vector<BlockWeight> residual_cluster_weights;
-    std::vector<EdgeWeight> global_total_gains_to_block;
+    std::vector<GlobalEdgeWeight> global_total_gains_to_block;
 
     TIMED_SCOPE("Gather weights and gains") {
       parallel::vector_ets<BlockWeight> weight_to_block_ets(_p_ctx->k);
-      parallel::vector_ets<EdgeWeight> gain_to_block_ets(_p_ctx->k);
+      parallel::vector_ets<GlobalEdgeWeight> gain_to_block_ets(_p_ctx->k);
 
       _graph->pfor_nodes_range(from, to, [&](const auto r) {
         auto &weight_to_block = weight_to_block_ets.local();
@@ -181,7 +181,7 @@ private:
 
       const auto weight_to_block = weight_to_block_ets.combine(std::plus{});
       const auto gain_to_block = gain_to_block_ets.combine(std::plus{});
-      std::vector<EdgeWeight> global_gain_to(_p_ctx->k);
+      std::vector<GlobalEdgeWeight> global_gain_to(_p_ctx->k);
 
       if (!_lp_ctx.ignore_probabilities) {
         mpi::allreduce(
@@ -225,7 +225,7 @@ private:
       const NodeID from,
       const NodeID to,
       const std::vector<BlockWeight> &residual_block_weights,
-      const std::vector<EdgeWeight> &total_gains_to_block
+      const std::vector<GlobalEdgeWeight> &total_gains_to_block
   ) {
     TIMER_BARRIER(_graph->communicator());
     SCOPED_TIMER("Perform moves");
diff --git a/kaminpar-dist/refinement/lp/lp_stats.cc b/kaminpar-dist/refinement/lp/lp_stats.cc
index 6275103..3bf5a7f 100644
--- a/kaminpar-dist/refinement/lp/lp_stats.cc
+++ b/kaminpar-dist/refinement/lp/lp_stats.cc
@@ -32,10 +32,10 @@ void RefinerStatistics::reset() {
 }
 
 void RefinerStatistics::print(MPI_Comm comm) {
-  auto expected_gain_reduced = mpi::reduce_single<EdgeWeight>(expected_gain, MPI_SUM, 0, comm);
-  auto realized_gain_reduced = mpi::reduce_single<EdgeWeight>(realized_gain, MPI_SUM, 0, comm);
-  auto rejected_gain_reduced = mpi::reduce_single<EdgeWeight>(rejected_gain, MPI_SUM, 0, comm);
-  auto rollback_gain_reduced = mpi::reduce_single<EdgeWeight>(rollback_gain, MPI_SUM, 0, comm);
+  auto expected_gain_reduced = mpi::reduce_single<GlobalEdgeWeight>(expected_gain, MPI_SUM, 0, comm);
+  auto realized_gain_reduced = mpi::reduce_single<GlobalEdgeWeight>(realized_gain, MPI_SUM, 0, comm);
+  auto rejected_gain_reduced = mpi::reduce_single<GlobalEdgeWeight>(rejected_gain, MPI_SUM, 0, comm);
+  auto rollback_gain_reduced = mpi::reduce_single<GlobalEdgeWeight>(rollback_gain, MPI_SUM, 0, comm);
   auto expected_imbalance_str = mpi::gather_statistics_str(expected_imbalance, comm);
   auto num_tentatively_moved_nodes_str =
       mpi::gather_statistics_str(num_tentatively_moved_nodes.load(), comm);
diff --git a/kaminpar-dist/refinement/lp/lp_stats.h b/kaminpar-dist/refinement/lp/lp_stats.h
index 9f408a2..db256bf 100644
--- a/kaminpar-dist/refinement/lp/lp_stats.h
+++ b/kaminpar-dist/refinement/lp/lp_stats.h
@@ -16,8 +16,8 @@
 namespace kaminpar::dist::lp {
 
 struct RefinerStatistics {
-  EdgeWeight cut_before = 0;
-  EdgeWeight cut_after = 0;
+  GlobalEdgeWeight cut_before = 0;
+  GlobalEdgeWeight cut_after = 0;
 
   // Global:
   int num_successful_moves = 0;
@@ -32,14 +32,14 @@ struct RefinerStatistics {
   double total_balance_violation = 0.0; // global, only if rollback occurred
 
   // Local, expectation value of probabilistic gain values
-  std::atomic<EdgeWeight> expected_gain = 0;
+  std::atomic<GlobalEdgeWeight> expected_gain = 0;
 
   // Local, gain values of moves that were accept / rejected
-  std::atomic<EdgeWeight> realized_gain = 0;
-  std::atomic<EdgeWeight> rejected_gain = 0;
+  std::atomic<GlobalEdgeWeight> realized_gain = 0;
+  std::atomic<GlobalEdgeWeight> rejected_gain = 0;
 
   // Local, gain values that were rollbacked
-  std::atomic<EdgeWeight> rollback_gain = 0;
+  std::atomic<GlobalEdgeWeight> rollback_gain = 0;
 
   // Local, expected imbalance
   double expected_imbalance = 0;
diff --git a/kaminpar-dist/refinement/snapshooter.cc b/kaminpar-dist/refinement/snapshooter.cc
index 39f1588..23b3823 100644
--- a/kaminpar-dist/refinement/snapshooter.cc
+++ b/kaminpar-dist/refinement/snapshooter.cc
@@ -46,7 +46,7 @@ void BestPartitionSnapshooter::rollback(DistributedPartitionedGraph &p_graph) {
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx
 ) {
-  const EdgeWeight current_cut = metrics::edge_cut(p_graph);
+  const GlobalEdgeWeight current_cut = metrics::edge_cut(p_graph);
   const double current_l1 = metrics::imbalance_l1(p_graph, p_ctx);
   update(p_graph, p_ctx, current_cut, current_l1);
 }
@@ -54,7 +54,7 @@ void BestPartitionSnapshooter::update(
 void BestPartitionSnapshooter::update(
     const DistributedPartitionedGraph &p_graph,
     const PartitionContext &p_ctx,
-    const EdgeWeight cut,
+    const GlobalEdgeWeight cut,
     const double l1
 ) {
   // Accept if the previous best partition is imbalanced and we improved its balance
@@ -94,7 +94,7 @@ void DummyPartitionSnapshooter::update(
 void DummyPartitionSnapshooter::update(
     const DistributedPartitionedGraph & /* p_graph */,
     const PartitionContext & /* p_ctx */,
-    EdgeWeight /* cut */,
+    GlobalEdgeWeight /* cut */,
     double /* l1 */
 ) {}
 
diff --git a/kaminpar-dist/refinement/snapshooter.h b/kaminpar-dist/refinement/snapshooter.h
index aac528b..f241371 100644
--- a/kaminpar-dist/refinement/snapshooter.h
+++ b/kaminpar-dist/refinement/snapshooter.h
@@ -26,7 +26,7 @@ public:
   virtual void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) = 0;
 
@@ -44,7 +44,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
@@ -54,7 +54,7 @@ private:
   void copy_partition(const DistributedPartitionedGraph &p_graph, const PartitionContext &p_ctx);
 
   double _best_l1;
-  EdgeWeight _best_cut;
+  GlobalEdgeWeight _best_cut;
   StaticArray<BlockID> _best_partition;
   StaticArray<BlockWeight> _best_block_weights;
   bool _last_is_best;
@@ -69,7 +69,7 @@ public:
   void update(
       const DistributedPartitionedGraph &p_graph,
       const PartitionContext &p_ctx,
-      EdgeWeight cut,
+      GlobalEdgeWeight cut,
       double l1
   ) final;
 
-- 
2.43.0


From 1e5f37235a73b5bb4fba3106ed2eb399f2e110db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 16/28] fix: do not truncate cluster weight limits to 32 bit
 node weights

Limits derived from global weights were stored as NodeWeight: the global label
propagation truncated the maximum cluster weight, and the cluster balancer the
overload of the blocks.
---
 .../coarsening/clustering/lp/global_lp_clusterer.cc    |  2 +-
 .../coarsening/clustering/lp/local_lp_clusterer.cc     |  5 ++++-
 kaminpar-dist/refinement/balancer/cluster_balancer.cc  |  8 ++++----
 kaminpar-dist/refinement/balancer/cluster_balancer.h   |  2 +-
 kaminpar-dist/refinement/balancer/clusters.cc          | 10 +++++-----
 kaminpar-dist/refinement/balancer/clusters.h           |  2 +-
 6 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
index d83f780..e5672b1 100644
--- a/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc
@@ -665,7 +665,7 @@ private:
   const Context &_ctx;
   const CoarseningContext &_c_ctx;
 
-  NodeWeight _max_cluster_weight = std::numeric_limits<NodeWeight>::max();
+  GlobalNodeWeight _max_cluster_weight = std::numeric_limits<GlobalNodeWeight>::max();
   int _max_num_iterations = std::numeric_limits<int>::max();
 
   // If a node was moved during the current iteration: its label before the move
diff --git a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
index aea5698..7fca8a3 100644
--- a/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc
@@ -80,7 +80,10 @@ public:
   }
 
   void set_max_cluster_weight(const GlobalNodeWeight max_cluster_weight) {
-    _max_cluster_weight = max_cluster_weight;
+    // Local cluster weights are limited by the range of NodeWeight
+    _max_cluster_weight = static_cast<NodeWeight>(
+        std::min<GlobalNodeWeight>(max_cluster_weight, std::numeric_limits<NodeWeight>::max())
+    );
   }
 
   void compute_clustering(StaticArray<NodeID> &clustering, const Graph &graph) {
diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.cc b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
index 37f3c84..7cacf5e 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.cc
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.cc
@@ -880,8 +880,8 @@ bool ClusterBalancer::assign_feasible_target_block(
   return candidate.from != candidate.to;
 }
 
-NodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
-  NodeWeight limit = 0;
+GlobalNodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
+  GlobalNodeWeight limit = 0;
   switch (_cb_ctx.cluster_size_strategy) {
   case ClusterSizeStrategy::ZERO:
     limit = 0;
@@ -893,7 +893,7 @@ NodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
 
   case ClusterSizeStrategy::MAX_OVERLOAD:
     for (const BlockID block : _p_graph.blocks()) {
-      limit = std::max<NodeWeight>(limit, overload(block));
+      limit = std::max<GlobalNodeWeight>(limit, overload(block));
     }
     break;
 
@@ -906,7 +906,7 @@ NodeWeight ClusterBalancer::compute_cluster_weight_limit() const {
 
   case ClusterSizeStrategy::MIN_OVERLOAD:
     for (const BlockID block : _p_graph.blocks()) {
-      limit = std::min<NodeWeight>(limit, overload(block));
+      limit = std::min<GlobalNodeWeight>(limit, overload(block));
     }
     break;
   }
diff --git a/kaminpar-dist/refinement/balancer/cluster_balancer.h b/kaminpar-dist/refinement/balancer/cluster_balancer.h
index a433aed..4f15605 100644
--- a/kaminpar-dist/refinement/balancer/cluster_balancer.h
+++ b/kaminpar-dist/refinement/balancer/cluster_balancer.h
@@ -125,7 +125,7 @@ private:
       MoveCandidate &candidate, const std::vector<BlockWeight> &deltas
   ) const;
 
-  NodeWeight compute_cluster_weight_limit() const;
+  GlobalNodeWeight compute_cluster_weight_limit() const;
 
   std::string dbg_get_partition_state_str() const;
   std::string dbg_get_pq_state_str() const;
diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index 9ad8c2c..bccbd05 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -288,7 +288,7 @@ public:
     _cluster_indices.front() = 0;
   }
 
-  void build(const NodeWeight max_cluster_weight) {
+  void build(const GlobalNodeWeight max_cluster_weight) {
     reset_cur_conns();
 
     for (const NodeID u : _p_graph.nodes()) {
@@ -300,7 +300,7 @@ public:
     }
   }
 
-  void grow_cluster(const NodeID seed, const NodeWeight max_weight) {
+  void grow_cluster(const NodeID seed, const GlobalNodeWeight max_weight) {
     KASSERT(_node_to_cluster[seed] == kInvalidNodeID);
 
     _frontier.push(seed, 0);
@@ -463,7 +463,7 @@ private:
 Clusters build_singleton_clusters(
     const DistributedPartitionedGraph &p_graph,
     const PartitionContext &p_ctx,
-    NodeWeight /* max_weight */,
+    GlobalNodeWeight /* max_weight */,
     ClustersMemoryContext m_ctx
 ) {
   m_ctx.clear();
@@ -517,7 +517,7 @@ Clusters build_singleton_clusters(
 Clusters build_local_clusters(
     const DistributedPartitionedGraph &p_graph,
     const PartitionContext &p_ctx,
-    const NodeWeight max_weight,
+    const GlobalNodeWeight max_weight,
     std::unique_ptr<Clusterer> clusterer,
     ClustersMemoryContext m_ctx
 ) {
@@ -595,7 +595,7 @@ Clusters build_clusters(
     const DistributedPartitionedGraph &p_graph,
     const Context &ctx,
     const PartitionContext &p_ctx,
-    const NodeWeight max_move_set_weight,
+    const GlobalNodeWeight max_move_set_weight,
     ClustersMemoryContext m_ctx
 
 ) {
diff --git a/kaminpar-dist/refinement/balancer/clusters.h b/kaminpar-dist/refinement/balancer/clusters.h
index a877962..02406d0 100644
--- a/kaminpar-dist/refinement/balancer/clusters.h
+++ b/kaminpar-dist/refinement/balancer/clusters.h
@@ -242,7 +242,7 @@ Clusters build_clusters(
     const DistributedPartitionedGraph &p_graph,
     const Context &ctx,
     const PartitionContext &p_ctx,
-    NodeWeight max_move_cluster_size,
+    GlobalNodeWeight max_move_cluster_size,
     ClustersMemoryContext m_ctx
 );
 } // namespace kaminpar::dist
-- 
2.43.0


From 669677d2cc1e5b1dedbbf20f0363fcdce787b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 17/28] fix: start sums with a value of the type that is summed
 up

std::accumulate() and parallel::accumulate() sum up in the type of the initial
value: with a literal 0, sums of edge counts, weights and sizes were computed
in int.
---
 apps/io/shm_io.cc                                        | 2 +-
 kaminpar-dist/graphutils/bfs_extractor.cc                | 4 ++--
 kaminpar-dist/graphutils/subgraph_extractor.cc           | 2 +-
 kaminpar-dist/refinement/balancer/clusters.cc            | 2 +-
 kaminpar-mpi/sparse_alltoall.h                           | 2 +-
 kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc | 4 +++-
 6 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/apps/io/shm_io.cc b/apps/io/shm_io.cc
index a06922a..7de06fb 100644
--- a/apps/io/shm_io.cc
+++ b/apps/io/shm_io.cc
@@ -137,7 +137,7 @@ StaticArray<BlockID> read_block_sizes(const std::string &filename) {
     toker.consume_char('\n');
   }
 
-  const NodeID n = std::accumulate(block_sizes.begin(), block_sizes.end(), 0);
+  const NodeID n = std::accumulate(block_sizes.begin(), block_sizes.end(), NodeID{0});
 
   StaticArray<BlockID> partition(n);
   NodeID cur = 0;
diff --git a/kaminpar-dist/graphutils/bfs_extractor.cc b/kaminpar-dist/graphutils/bfs_extractor.cc
index e173ae6..652f6df 100644
--- a/kaminpar-dist/graphutils/bfs_extractor.cc
+++ b/kaminpar-dist/graphutils/bfs_extractor.cc
@@ -440,12 +440,12 @@ auto BfsExtractor::combine_fragments(tbb::concurrent_vector<GraphFragment> &frag
 
   // Compute size of combined graph
   const NodeID real_n =
-      parallel::accumulate(fragments.begin(), fragments.end(), 0, [&](const auto &fragment) {
+      parallel::accumulate(fragments.begin(), fragments.end(), NodeID{0}, [&](const auto &fragment) {
         return fragment.nodes.size() - 1;
       });
   const NodeID pseudo_n = real_n + _p_graph->k(); // Include pseudo-nodes for contracted neighbors
   const EdgeID m =
-      parallel::accumulate(fragments.begin(), fragments.end(), 0, [&](const auto &fragment) {
+      parallel::accumulate(fragments.begin(), fragments.end(), EdgeID{0}, [&](const auto &fragment) {
         return fragment.edges.size();
       });
 
diff --git a/kaminpar-dist/graphutils/subgraph_extractor.cc b/kaminpar-dist/graphutils/subgraph_extractor.cc
index a718317..aa515b7 100644
--- a/kaminpar-dist/graphutils/subgraph_extractor.cc
+++ b/kaminpar-dist/graphutils/subgraph_extractor.cc
@@ -66,7 +66,7 @@ extract_local_block_induced_subgraphs(const DistributedPartitionedGraph &p_graph
 
   auto [num_nodes_per_block, num_edges_per_block] = count_block_induced_subgraph_sizes(p_graph);
   const EdgeID num_internal_edges =
-      std::accumulate(num_edges_per_block.begin(), num_edges_per_block.end(), 0);
+      std::accumulate(num_edges_per_block.begin(), num_edges_per_block.end(), EdgeID{0});
 
   ExtractedLocalSubgraphs memory;
   auto &shared_nodes = memory.shared_nodes;
diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index bccbd05..b45b5f9 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -540,7 +540,7 @@ Clusters build_local_clusters(
   parallel::prefix_sum(
       cluster_to_move_set.begin(), cluster_to_move_set.end(), cluster_to_move_set.begin()
   );
-  std::exclusive_scan(cluster_sizes.begin(), cluster_sizes.end(), cluster_sizes.begin(), 0);
+  std::exclusive_scan(cluster_sizes.begin(), cluster_sizes.end(), cluster_sizes.begin(), NodeID{0});
 
   m_ctx.clear();
   m_ctx.resize(p_graph);
diff --git a/kaminpar-mpi/sparse_alltoall.h b/kaminpar-mpi/sparse_alltoall.h
index 6ed51e6..191ab77 100644
--- a/kaminpar-mpi/sparse_alltoall.h
+++ b/kaminpar-mpi/sparse_alltoall.h
@@ -69,7 +69,7 @@ bool use_sparse_grid_alltoall(const SendBuffers &send_buffers, MPI_Comm comm) {
   const std::size_t local_num_elements = parallel::accumulate(
       send_buffers.begin(),
       send_buffers.end(),
-      0,
+      std::size_t{0},
       [&](const auto &send_buffer) { return send_buffer.size(); }
   );
 
diff --git a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
index 253c4d4..8e4cee2 100644
--- a/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
+++ b/kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc
@@ -46,7 +46,9 @@ std::vector<BlockWeight> compute_max_block_weights(
 
       const BlockID cur_end = cur_begin + num_sub_blocks;
       max_block_weights[b] = std::accumulate(
-          next_block_weights.begin() + cur_begin, next_block_weights.begin() + cur_end, 0
+          next_block_weights.begin() + cur_begin,
+          next_block_weights.begin() + cur_end,
+          BlockWeight{0}
       );
 
       DBG << "block " << b << ": aggregate weight for " << num_sub_blocks << " of "
-- 
2.43.0


From ca8cc6a995a9154b0d94a20824bb6f636b0c4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 18/28] fix: compute sizes of node x block tables with 64 bits
 in the distributed balancer

n * k was computed in 32 bits, which overflows for, e.g., 2^24 nodes per PE and
256 blocks.
---
 kaminpar-dist/datastructures/ghost_node_mapper.h |  2 +-
 kaminpar-dist/graphutils/bfs_extractor.cc        |  6 +++---
 kaminpar-dist/refinement/balancer/clusters.cc    | 12 ++++++------
 kaminpar-dist/refinement/balancer/clusters.h     | 16 ++++++++--------
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/kaminpar-dist/datastructures/ghost_node_mapper.h b/kaminpar-dist/datastructures/ghost_node_mapper.h
index 9037c8e..700de0f 100644
--- a/kaminpar-dist/datastructures/ghost_node_mapper.h
+++ b/kaminpar-dist/datastructures/ghost_node_mapper.h
@@ -157,7 +157,7 @@ public:
     const std::size_t sparse_size =
         num_ghost_nodes * sizeof(growt::StaticGhostNodeMapping::atomic_slot_type);
     const std::size_t dense_size =
-        num_global_nodes / 8 + num_ghost_nodes * math::byte_width(num_ghost_nodes - 1);
+        num_global_nodes / 8 + 1ull * num_ghost_nodes * math::byte_width(num_ghost_nodes - 1);
 
     if (sparse_size >= dense_size) {
       RankCombinedBitVector global_to_ghost_bitmap(_node_distribution.back());
diff --git a/kaminpar-dist/graphutils/bfs_extractor.cc b/kaminpar-dist/graphutils/bfs_extractor.cc
index 652f6df..1ab25df 100644
--- a/kaminpar-dist/graphutils/bfs_extractor.cc
+++ b/kaminpar-dist/graphutils/bfs_extractor.cc
@@ -576,7 +576,7 @@ void BfsExtractor::set_high_degree_strategy(const HighDegreeStrategy high_degree
 }
 
 void BfsExtractor::init_external_degrees() {
-  _external_degrees.resize(_graph->n() * _p_graph->k());
+  _external_degrees.resize(1ull * _graph->n() * _p_graph->k());
   tbb::parallel_for<std::size_t>(0, _external_degrees.size(), [&](const std::size_t i) {
     _external_degrees[i] = 0;
   });
@@ -590,8 +590,8 @@ void BfsExtractor::init_external_degrees() {
 }
 
 EdgeWeight &BfsExtractor::external_degree(const NodeID u, const BlockID b) {
-  KASSERT(u * _p_graph->k() + b < _external_degrees.size());
-  return _external_degrees[u * _p_graph->k() + b];
+  KASSERT(1ull * u * _p_graph->k() + b < _external_degrees.size());
+  return _external_degrees[1ull * u * _p_graph->k() + b];
 }
 
 GlobalNodeID BfsExtractor::map_block_to_pseudo_node(const BlockID block) {
diff --git a/kaminpar-dist/refinement/balancer/clusters.cc b/kaminpar-dist/refinement/balancer/clusters.cc
index b45b5f9..36e22c9 100644
--- a/kaminpar-dist/refinement/balancer/clusters.cc
+++ b/kaminpar-dist/refinement/balancer/clusters.cc
@@ -271,8 +271,8 @@ public:
     if (_cluster_indices.size() < _p_graph.n() + 1) {
       _cluster_indices.resize(_p_graph.n() + 1);
     }
-    if (_conns.size() < _p_graph.n() * _p_graph.k()) {
-      _conns.resize(_p_graph.n() * _p_graph.k());
+    if (_conns.size() < 1ull * _p_graph.n() * _p_graph.k()) {
+      _conns.resize(1ull * _p_graph.n() * _p_graph.k());
     }
     if (_frontier.size() < _p_graph.n()) {
       _frontier.resize(_p_graph.n());
@@ -369,7 +369,7 @@ public:
       _node_to_cluster[_clusters[pos]] = kInvalidNodeID;
     }
     for (const BlockID block : _p_graph.blocks()) {
-      _conns[_cur_cluster * _p_graph.k() + block] = 0;
+      _conns[1ull * _cur_cluster * _p_graph.k() + block] = 0;
     }
     // @todo should do this when updating _best_*
     for (NodeID pos = _cluster_indices[_cur_cluster]; pos < _best_prefix_pos; ++pos) {
@@ -379,7 +379,7 @@ public:
           return;
         }
         const BlockID bv = _p_graph.block(v);
-        _conns[_cur_cluster * _p_graph.k() + bv] += w;
+        _conns[1ull * _cur_cluster * _p_graph.k() + bv] += w;
       });
     }
 
@@ -482,7 +482,7 @@ Clusters build_singleton_clusters(
       }
       p_graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
         const BlockID bv = p_graph.block(v);
-        const std::size_t idx = cur_move_set * p_graph.k() + bv;
+        const std::size_t idx = 1ull * cur_move_set * p_graph.k() + bv;
         KASSERT(idx < m_ctx.cluster_conns.size());
         m_ctx.cluster_conns[idx] += w;
       });
@@ -560,7 +560,7 @@ Clusters build_local_clusters(
         // We may not access clustering[.] for ghost vertices
         if (!p_graph.is_owned_node(v) || clustering[v] != clustering[u]) {
           const BlockID bv = p_graph.block(v);
-          m_ctx.cluster_conns[ms * p_graph.k() + bv] += w;
+          m_ctx.cluster_conns[1ull * ms * p_graph.k() + bv] += w;
         }
       });
     } else {
diff --git a/kaminpar-dist/refinement/balancer/clusters.h b/kaminpar-dist/refinement/balancer/clusters.h
index 02406d0..a7b443a 100644
--- a/kaminpar-dist/refinement/balancer/clusters.h
+++ b/kaminpar-dist/refinement/balancer/clusters.h
@@ -46,8 +46,8 @@ private:
     if (cluster_indices.size() < n + 1) {
       cluster_indices.resize(n + 1);
     }
-    if (cluster_conns.size() < n * k) {
-      cluster_conns.resize(n * k);
+    if (cluster_conns.size() < 1ull * n * k) {
+      cluster_conns.resize(1ull * n * k);
     }
   }
 };
@@ -106,7 +106,7 @@ public:
   }
 
   [[nodiscard]] inline EdgeWeight conn(const NodeID cluster, const BlockID to_block) const {
-    return _cluster_conns[cluster * _p_graph->k() + to_block];
+    return _cluster_conns[1ull * cluster * _p_graph->k() + to_block];
   }
 
   [[nodiscard]] inline BlockID block(const NodeID cluster) const {
@@ -139,9 +139,9 @@ public:
       KASSERT(edge < _ghost_node_edges.size());
       const auto [cluster, weight] = _ghost_node_edges[edge];
 
-      KASSERT((cluster + 1) * _p_graph->k() <= _cluster_conns.size());
-      _cluster_conns[cluster * _p_graph->k() + from] -= weight;
-      _cluster_conns[cluster * _p_graph->k() + to] += weight;
+      KASSERT((1ull * cluster + 1) * _p_graph->k() <= _cluster_conns.size());
+      _cluster_conns[1ull * cluster * _p_graph->k() + from] -= weight;
+      _cluster_conns[1ull * cluster * _p_graph->k() + to] += weight;
 
       handler(cluster);
     }
@@ -171,8 +171,8 @@ public:
         }
 
         const EdgeWeight delta = w;
-        _cluster_conns[set_v * _p_graph->k() + from] -= delta;
-        _cluster_conns[set_v * _p_graph->k() + to] += delta;
+        _cluster_conns[1ull * set_v * _p_graph->k() + from] -= delta;
+        _cluster_conns[1ull * set_v * _p_graph->k() + to] += delta;
       });
     }
   }
-- 
2.43.0


From 541595c5fc9186a57c2d5fbbc676c613b5fb1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 19/28] fix: sum up node degrees in EdgeID

The degrees of all nodes of a cluster, chunk or component can add up to more
edges than fit into a NodeID.
---
 apps/tools/shm_connected_components_tool.cc               | 2 +-
 kaminpar-dist/distributed_label_propagation.h             | 2 +-
 .../contraction/buffered_cluster_contraction.cc           | 8 ++++----
 .../contraction/legacy_buffered_cluster_contraction.cc    | 2 +-
 .../contraction/naive_unbuffered_cluster_contraction.cc   | 2 +-
 .../contraction/unbuffered_cluster_contraction.cc         | 4 ++--
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/apps/tools/shm_connected_components_tool.cc b/apps/tools/shm_connected_components_tool.cc
index b68481d..9ac95ff 100644
--- a/apps/tools/shm_connected_components_tool.cc
+++ b/apps/tools/shm_connected_components_tool.cc
@@ -97,7 +97,7 @@ template <typename Graph>
     }
 
     NodeID current_component_order = 0;
-    NodeID current_component_size = 0;
+    EdgeID current_component_size = 0;
 
     visited_nodes[node] = true;
     current_component.push(node);
diff --git a/kaminpar-dist/distributed_label_propagation.h b/kaminpar-dist/distributed_label_propagation.h
index 9f0a40c..5380165 100644
--- a/kaminpar-dist/distributed_label_propagation.h
+++ b/kaminpar-dist/distributed_label_propagation.h
@@ -1192,7 +1192,7 @@ private:
           std::vector<bool> hit(to - from);
           for (const auto &[start, end] : _chunks) {
             KASSERT(start <= end, "");
-            EdgeWeight total_work = 0;
+            EdgeID total_work = 0;
 
             for (NodeID u = start; u < end; ++u) {
               KASSERT(from <= u, "");
diff --git a/kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc b/kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
index c476d58..45e3c59 100644
--- a/kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
+++ b/kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc
@@ -67,7 +67,7 @@ std::unique_ptr<CoarseGraph> contract_clustering_buffered(
       const NodeID first = buckets_index[c_u];
       const NodeID last = buckets_index[c_u + 1];
 
-      NodeID fine_degree = 0;
+      EdgeID fine_degree = 0;
       for (NodeID u = first; u < last; ++u) {
         const NodeID v = buckets[u];
         fine_degree += graph.degree(v);
@@ -79,9 +79,9 @@ std::unique_ptr<CoarseGraph> contract_clustering_buffered(
     const EdgeID max_chunk_edge_count = edge_count * con_ctx.edge_buffer_fill_fraction;
 
     NodeID chunk_start = 0;
-    NodeID chunk_edge_count = 0;
+    EdgeID chunk_edge_count = 0;
     for (NodeID c_u = 0; c_u < c_n; ++c_u) {
-      const NodeID fine_degree = c_nodes[c_u + 1];
+      const EdgeID fine_degree = c_nodes[c_u + 1];
       chunk_edge_count += fine_degree;
 
       // With this coarse node the chunk would have more fine edges than the maximum allowed
@@ -168,7 +168,7 @@ std::unique_ptr<CoarseGraph> contract_clustering_buffered(
         // To select the right map, we need a upper bound on the coarse node degree. If we
         // previously split the coarse nodes into chunks, we have already computed them and stored
         // them in the c_nodes array.
-        NodeID upper_bound_degree;
+        EdgeID upper_bound_degree;
         if (split_coarse_nodes) {
           upper_bound_degree = c_nodes[c_u + 1];
         } else {
diff --git a/kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc b/kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
index 2885b09..7ecffde 100644
--- a/kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
+++ b/kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc
@@ -108,7 +108,7 @@ std::unique_ptr<CoarseGraph> contract_clustering_buffered_legacy(
 
       // to select the right map, we compute a upper bound on the coarse node
       // degree by summing the degree of all fine nodes
-      NodeID upper_bound_degree = 0;
+      EdgeID upper_bound_degree = 0;
       for (std::size_t i = first; i < last; ++i) {
         const NodeID u = buckets[i];
         upper_bound_degree += graph.degree(u);
diff --git a/kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc b/kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
index 901a975..a7be82c 100644
--- a/kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
+++ b/kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc
@@ -90,7 +90,7 @@ std::unique_ptr<CoarseGraph> contract_clustering_unbuffered_naive(
 
       // To select the right map, we compute a upper bound on the coarse node degree by summing
       // the degree of all fine nodes.
-      NodeID upper_bound_degree = 0;
+      EdgeID upper_bound_degree = 0;
       for (NodeID i = first; i < last; ++i) {
         const NodeID u = buckets[i];
         upper_bound_degree += graph.degree(u);
diff --git a/kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc b/kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
index c35c72c..2c44f5a 100644
--- a/kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
+++ b/kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc
@@ -60,7 +60,7 @@ public:
     return _num_buffered_nodes;
   }
 
-  [[nodiscard]] NodeID num_buffered_edges() const {
+  [[nodiscard]] EdgeID num_buffered_edges() const {
     return _num_buffered_edges;
   }
 
@@ -337,7 +337,7 @@ std::unique_ptr<CoarseGraph> contract_clustering_unbuffered(
 
         // To select the right map, we compute a upper bound on the coarse node degree by summing
         // the degree of all fine nodes.
-        NodeID upper_bound_degree = 0;
+        EdgeID upper_bound_degree = 0;
         for (NodeID i = first; i < last; ++i) {
           const NodeID u = buckets[i];
           upper_bound_degree += graph.degree(u);
-- 
2.43.0


From 49b5781f305cb330d7ac7f2374a0714f6a0835b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 20/28] fix: check that the weights of a copied distributed
 graph fit into 32 bits

---
 kaminpar-dist/dkaminpar.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kaminpar-dist/dkaminpar.cc b/kaminpar-dist/dkaminpar.cc
index 8507d92..634797b 100644
--- a/kaminpar-dist/dkaminpar.cc
+++ b/kaminpar-dist/dkaminpar.cc
@@ -28,6 +28,7 @@
 
 #include "kaminpar-shm/kaminpar.h"
 
+#include "kaminpar-common/asserting_cast.h"
 #include "kaminpar-common/console_io.h"
 #include "kaminpar-common/environment.h"
 #include "kaminpar-common/heap_profiler.h"
@@ -246,14 +247,18 @@ void dKaMinPar::import_graph(
           return;
         }
         edge_weights.resize(m);
-        tbb::parallel_for<EdgeID>(0, m, [&](const EdgeID e) { edge_weights[e] = adjwgt[e]; });
+        tbb::parallel_for<EdgeID>(0, m, [&](const EdgeID e) {
+          edge_weights[e] = asserting_cast<EdgeWeight>(adjwgt[e]);
+        });
       }
   );
 
   if (!vwgt.empty()) {
     // Allocate enough room for ghost nodes; we fill them in after constructing the graph
     node_weights.resize(n + mapper.next_ghost_node());
-    tbb::parallel_for<NodeID>(0, n, [&](const NodeID u) { node_weights[u] = vwgt[u]; });
+    tbb::parallel_for<NodeID>(0, n, [&](const NodeID u) {
+      node_weights[u] = asserting_cast<NodeWeight>(vwgt[u]);
+    });
   }
 
   auto [global_to_ghost, ghost_to_global, ghost_owner] = mapper.finalize();
-- 
2.43.0


From 68802b57584f89eb80b3c3a8679e7aefb2b0a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 21/28] fix: keep the gain statistics of the colored LP refiner
 in GlobalEdgeWeight

---
 kaminpar-dist/refinement/lp/clp_refiner.cc | 10 +++++-----
 kaminpar-dist/refinement/lp/clp_refiner.h  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kaminpar-dist/refinement/lp/clp_refiner.cc b/kaminpar-dist/refinement/lp/clp_refiner.cc
index 0c2fc7f..6b82fdf 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.cc
+++ b/kaminpar-dist/refinement/lp/clp_refiner.cc
@@ -894,7 +894,7 @@ void ColoredLPRefiner::GainStatistics::initialize(const ColorID c) {
   _gain_per_color.resize(c);
 }
 
-void ColoredLPRefiner::GainStatistics::record_gain(const EdgeWeight gain, const ColorID c) {
+void ColoredLPRefiner::GainStatistics::record_gain(const GlobalEdgeWeight gain, const ColorID c) {
   KASSERT(!_gain_per_color.empty(), "must call initialize() first");
   KASSERT(c < _gain_per_color.size());
   __atomic_fetch_add(&_gain_per_color[c], gain, __ATOMIC_RELAXED);
@@ -933,21 +933,21 @@ void ColoredLPRefiner::GainStatistics::summarize_by_size(
   );
 
   // Group by color size
-  std::unordered_map<GlobalNodeID, EdgeWeight> gain_by_color_size;
+  std::unordered_map<GlobalNodeID, GlobalEdgeWeight> gain_by_color_size;
   for (ColorID c = 0; c < gain_per_color_global.size(); ++c) {
     const GlobalNodeID size = global_color_sizes[c];
-    const EdgeWeight gain = gain_per_color_global[c];
+    const GlobalEdgeWeight gain = gain_per_color_global[c];
     gain_by_color_size[size] += gain;
   }
 
   // Sort by color size
-  std::vector<std::pair<GlobalNodeID, EdgeWeight>> gain_by_color_size_sorted;
+  std::vector<std::pair<GlobalNodeID, GlobalEdgeWeight>> gain_by_color_size_sorted;
   for (const auto &[color_size, color_gain] : gain_by_color_size) {
     gain_by_color_size_sorted.emplace_back(color_size, color_gain);
   }
   std::sort(gain_by_color_size_sorted.begin(), gain_by_color_size_sorted.end(), std::greater{});
 
-  EdgeWeight gain_so_far = 0;
+  GlobalEdgeWeight gain_so_far = 0;
 
   STATS << "Total gain achieved by each color size:";
   for (const auto &[color_size, color_gain] : gain_by_color_size_sorted) {
diff --git a/kaminpar-dist/refinement/lp/clp_refiner.h b/kaminpar-dist/refinement/lp/clp_refiner.h
index cf0731c..ec649f9 100644
--- a/kaminpar-dist/refinement/lp/clp_refiner.h
+++ b/kaminpar-dist/refinement/lp/clp_refiner.h
@@ -49,7 +49,7 @@ class ColoredLPRefiner : public GlobalRefiner {
   class GainStatistics {
   public:
     void initialize(ColorID num_colors);
-    void record_gain(EdgeWeight gain, ColorID c);
+    void record_gain(GlobalEdgeWeight gain, ColorID c);
     void summarize_by_size(const NoinitVector<ColorID> &color_sizes, MPI_Comm comm) const;
 
   private:
-- 
2.43.0


From 94f1714a9a6bd2abef1d2f0f1a759a8529a42a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 22/28] fix: hand over connections, not gains, for newly
 adjacent blocks unless gains are exact

---
 kaminpar-shm/refinement/gains/delta_gain_caches.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/delta_gain_caches.h b/kaminpar-shm/refinement/gains/delta_gain_caches.h
index 54b8827..4fdbc82 100644
--- a/kaminpar-shm/refinement/gains/delta_gain_caches.h
+++ b/kaminpar-shm/refinement/gains/delta_gain_caches.h
@@ -142,7 +142,9 @@ public:
       for (const BlockID to : it->second) {
         if (to != from) {
           lambda(to, [&] {
-            return _gain_cache.gain(node, from, to) + conn_delta(node, to) - conn_from_delta;
+            const EdgeWeight base =
+                kIteratesExactGains ? _gain_cache.gain(node, from, to) : _gain_cache.conn(node, to);
+            return base + conn_delta(node, to) - conn_from_delta;
           });
         }
       }
-- 
2.43.0


From 51607fbc49d7105485b499081e26824baeb23fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 23/28] fix: release node locks with release order

The spin locks of the gain caches and the ownership of nodes in FM were given
up with relaxed stores, so the writes made under the lock could become visible
after it.
---
 kaminpar-shm/refinement/fm/node_tracker.h                  | 2 +-
 kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h | 2 +-
 kaminpar-shm/refinement/gains/hashing_gain_cache.h         | 2 +-
 kaminpar-shm/refinement/gains/sparse_gain_cache.h          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kaminpar-shm/refinement/fm/node_tracker.h b/kaminpar-shm/refinement/fm/node_tracker.h
index fb44ddb..12c1f20 100644
--- a/kaminpar-shm/refinement/fm/node_tracker.h
+++ b/kaminpar-shm/refinement/fm/node_tracker.h
@@ -33,7 +33,7 @@ public:
   }
 
   void set(const NodeID node, const int value) {
-    __atomic_store_n(&_state[node], value, __ATOMIC_RELAXED);
+    __atomic_store_n(&_state[node], value, __ATOMIC_RELEASE);
   }
 
   void reset() {
diff --git a/kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h b/kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h
index 7a47448..f5f9d4d 100644
--- a/kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h
@@ -315,7 +315,7 @@ private:
 
   void unlock(const NodeID node) {
     __atomic_store_n(
-        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELAXED
+        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE
     );
   }
 
diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 0105a77..5ad6dc0 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -215,7 +215,7 @@ private:
 
   void unlock(const NodeID node) {
     __atomic_store_n(
-        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELAXED
+        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE
     );
   }
 
diff --git a/kaminpar-shm/refinement/gains/sparse_gain_cache.h b/kaminpar-shm/refinement/gains/sparse_gain_cache.h
index 5319b5b..c0342c3 100644
--- a/kaminpar-shm/refinement/gains/sparse_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/sparse_gain_cache.h
@@ -361,7 +361,7 @@ private:
 
   void unlock(const NodeID node) {
     __atomic_store_n(
-        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELAXED
+        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE
     );
   }
 
-- 
2.43.0


From e832fd28f209ba6488b0ab8f64e0cf8f749266c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 24/28] fix: retry a matching request when its compare-and-swap
 failed

The loop was left as soon as the exchange failed, so a heavier request could
lose to a lighter one.
---
 kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
index 9b0ef82..af15064 100644
--- a/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
+++ b/kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc
@@ -315,7 +315,7 @@ private:
           break;
         }
         new_partner = (static_cast<GlobalNodeID>(req.weight) << 32) | req.theirs;
-      } while (__atomic_compare_exchange_n(
+      } while (!__atomic_compare_exchange_n(
           &_matching[req.mine],
           &current_partner,
           new_partner,
-- 
2.43.0


From 23f228531d71ebc1fd900eda9f794d6be6be9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 25/28] fix: let spans remember their size so that unrestrict()
 does not empty them

---
 kaminpar-common/datastructures/static_array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kaminpar-common/datastructures/static_array.h b/kaminpar-common/datastructures/static_array.h
index 1094de3..89d12b9 100644
--- a/kaminpar-common/datastructures/static_array.h
+++ b/kaminpar-common/datastructures/static_array.h
@@ -151,12 +151,16 @@ public:
   using iterator = StaticArrayIterator<false>;
   using const_iterator = StaticArrayIterator<true>;
 
-  StaticArray(const std::size_t size, value_type *data) : _size(size), _data(data) {
+  StaticArray(const std::size_t size, value_type *data)
+      : _size(size),
+        _unrestricted_size(size),
+        _data(data) {
     RECORD_DATA_STRUCT(0, _struct);
   }
 
   StaticArray(const std::size_t size, heap_profiler::unique_ptr<T> storage)
       : _size(size),
+        _unrestricted_size(size),
         _overcommited_data(std::move(storage)),
         _data(_overcommited_data.get()) {
     RECORD_DATA_STRUCT(size * sizeof(T), _struct);
-- 
2.43.0


From cbcd734cfa39b3ae811ebcba97500db132f82c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:24 +0000
Subject: [PATCH 26/28] fix: give the number of chunks per PE of streamed KaGen
 graphs an initial value

Without --io-skagen-chunks, dKaMinPar passed an uninitialised number of
chunks to the streaming generator.
---
 apps/dKaMinPar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/dKaMinPar.cc b/apps/dKaMinPar.cc
index ad55b60..0ec823b 100644
--- a/apps/dKaMinPar.cc
+++ b/apps/dKaMinPar.cc
@@ -77,7 +77,7 @@ struct ApplicationContext {
   kagen::FileFormat io_format = kagen::FileFormat::EXTENSION;
   kagen::GraphDistribution io_kagen_distribution = kagen::GraphDistribution::BALANCE_EDGES;
   std::string io_skagen_graph_options;
-  int io_skagen_chunks_per_pe;
+  int io_skagen_chunks_per_pe = 1;
 
   std::string graph_filename = "";
   std::string partition_filename = "";
-- 
2.43.0


From 3ab40e196663bf9a39cf1f1de2f808a18824e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 27/28] fix: give the weight distribution of the weight
 attachment tool an initial value

capture_default_str() printed an indeterminate value in the help message.
---
 apps/tools/shm_graph_attach_weights_tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/tools/shm_graph_attach_weights_tool.cc b/apps/tools/shm_graph_attach_weights_tool.cc
index f603696..3002251 100644
--- a/apps/tools/shm_graph_attach_weights_tool.cc
+++ b/apps/tools/shm_graph_attach_weights_tool.cc
@@ -198,7 +198,7 @@ int main(int argc, char *argv[]) {
   app.add_option("-s,--seed", seed, "Seed for random number generation.")->capture_default_str();
   app.add_option("-t,--threads", num_threads, "Number of threads")->capture_default_str();
 
-  WeightDistribution distribution;
+  WeightDistribution distribution = WeightDistribution::UNIFORM;
   app.add_option("-d,--distribution", distribution)
       ->transform(CLI::CheckedTransformer(get_weight_distributions()).description(""))
       ->description(R"(Distribution used for generating edge weights:
-- 
2.43.0


From 22c02bc55be41d48aecbea1827710a7489a5f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 28/28] fix: size the hashing gain cache by the current graph

The offset array only grows, thus its last element belongs to an earlier,
larger graph and the table could be too small for the current one.
---
 kaminpar-shm/refinement/gains/hashing_gain_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kaminpar-shm/refinement/gains/hashing_gain_cache.h b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
index 5ad6dc0..e2eabd1 100644
--- a/kaminpar-shm/refinement/gains/hashing_gain_cache.h
+++ b/kaminpar-shm/refinement/gains/hashing_gain_cache.h
@@ -84,7 +84,7 @@ public:
       _offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);
     });
     parallel::prefix_sum(_offsets.begin(), _offsets.begin() + _n + 1, _offsets.begin());
-    const std::size_t gain_cache_size = _offsets.back();
+    const std::size_t gain_cache_size = _offsets[_n];
 
     if (_gain_cache.size() < gain_cache_size) {
       SCOPED_TIMER("Allocation");
-- 
2.43.0

