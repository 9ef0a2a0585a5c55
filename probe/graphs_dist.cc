// instantiates the template members of the distributed graph classes that the tree itself does not use
#include "kaminpar-dist/datastructures/distributed_graph.h"
#include "kaminpar-dist/datastructures/distributed_partitioned_graph.h"

using namespace kaminpar;
using namespace kaminpar::dist;

template <typename G> void loops(const G &g) {
  g.adjacent_nodes(0, [](const NodeID, const EdgeWeight) {});
  g.adjacent_nodes(0, 1, [](const NodeID, const EdgeWeight) {});
  g.adjacent_nodes(0, [](const NodeID, const EdgeWeight) { return true; });
  g.adjacent_nodes(0, 1, [](const NodeID, const EdgeWeight) { return true; });
  g.pfor_nodes(0, 1, [](const NodeID) {});
  g.pfor_nodes([](const NodeID) {});
  g.pfor_all_nodes([](const NodeID) {});
  g.pfor_ghost_nodes([](const NodeID) {});
  g.pfor_nodes_range(0, 1, [](const auto &) {});
  g.pfor_nodes_range([](const auto &) {});
}

void probe(const DistributedCSRGraph &csr, const DistributedCompressedGraph &compressed, const DistributedGraph &graph, DistributedPartitionedGraph &p) {
  loops(csr), loops(compressed), loops(graph), loops(p);
  csr.pfor_all_nodes_range([](const auto &) {}), compressed.pfor_all_nodes_range([](const auto &) {}), graph.pfor_all_nodes_range([](const auto &) {});
  csr.pfor_edges([](const EdgeID) {});
  p.pfor_blocks([](const BlockID) {});
  (void)graph.reified([](const auto &) { return 1; }, [](const auto &) { return 2; });
  graph.pfor_edges([](const auto, const auto...) {});
  p.pfor_edges([](const auto, const auto...) {});
}
