// instantiates the template members of the graph classes that the tree itself does not use
#include "kaminpar-common/degree_buckets.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"

using namespace kaminpar;
using namespace kaminpar::shm;

template <typename G> void queries(const G &g) {
  (void)g.n(), (void)g.m(), (void)g.is_node_weighted(), (void)g.node_weight(0), (void)g.total_node_weight(), (void)g.max_node_weight();
  (void)g.is_edge_weighted(), (void)g.total_edge_weight(), (void)g.nodes(), (void)g.edges(), (void)g.max_degree(), (void)g.degree(0);
  (void)g.permuted(), (void)g.map_original_node(0), (void)g.sorted(), (void)g.number_of_buckets(), (void)g.bucket_size(0);
  (void)g.first_node_in_bucket(0), (void)g.first_invalid_node_in_bucket(0);
  g.adjacent_nodes(0, [](const NodeID) {});
  g.adjacent_nodes(0, [](const NodeID, const EdgeWeight) {});
  g.pfor_nodes([](const NodeID) {});
}
template <typename G> void loops(const G &g) {
  g.adjacent_nodes(0, 1, [](const NodeID, const EdgeWeight) {});
  g.adjacent_nodes(0, [](const NodeID) { return true; });
  g.adjacent_nodes(0, [](const NodeID, const EdgeWeight) { return true; });
  g.adjacent_nodes(0, 1, [](const NodeID, const EdgeWeight) { return true; });
  g.pfor_nodes_range([](const auto &) {});
  g.pfor_adjacent_nodes(0, 1, 1, [](const NodeID, const EdgeWeight) {});
}
template <typename G> void partition(G &p) {
  (void)p.graph(), (void)p.initialized(), (void)p.k(), (void)p.blocks(), (void)p.block(0), (void)p.block_weight(0);
  p.pfor_blocks([](const BlockID) {});
}

void probe(const CSRGraph &csr, const CompressedGraph &compressed, const Graph &graph, PartitionedGraph &p, PartitionedCSRGraph &pc, DeltaPartitionedGraph &d) {
  queries(csr), queries(compressed), queries(graph), queries(p), queries(pc), queries(d);
  loops(csr), loops(compressed), loops(graph);
  partition(p), partition(pc), partition(d);
  csr.neighbors(0, [](const EdgeID, const NodeID, const EdgeWeight) {});
  csr.neighbors(0, [](const EdgeID, const NodeID, const EdgeWeight) { return true; });
  csr.pfor_edges([](const EdgeID) {});
  pc.pfor_edges([](const EdgeID) {});
  (void)pc.incident_edges(0);
  graph.pfor_edges([](const EdgeID) {});
  (void)graph.reified([](const auto &) { return 1; }, [](const auto &) { return 2; });
}

void probe(Graph &graph) {
  (void)graph.reified([](auto &) { return 1; }, [](auto &) { return 2; });
  (void)graph.reified([](auto &) { return 1; });
}

int probe() { return degree_bucket<std::uint32_t>(1) + degree_bucket<std::uint64_t>(1) + static_cast<int>(lowest_degree_in_bucket<NodeID>(1)); }

void probe(const CompressedNeighborhoods<NodeID, EdgeID, EdgeWeight> &c) {
  (void)c.num_nodes(), (void)c.num_edges(), (void)c.has_edge_weights(), (void)c.total_edge_weight(), (void)c.max_degree(), (void)c.degree(0);
  (void)c.num_high_degree_nodes(), (void)c.num_high_degree_parts(), (void)c.num_interval_nodes(), (void)c.num_intervals();
}
