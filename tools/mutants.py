"""Mutations (expected verdict 1) and harmless edits (expected verdict 0) used while developing the checks: (checks, verdict, file, old, new[, occurrence])"""
M = []
def m(*a): M.append(a)
PG = 'kaminpar-shm/datastructures/partitioned_graph.h'
DPG = 'kaminpar-shm/datastructures/delta_partitioned_graph.h'
DDPG = 'kaminpar-dist/datastructures/distributed_partitioned_graph.h'
LP = 'kaminpar-shm/label_propagation.h'
DLP = 'kaminpar-dist/distributed_label_propagation.h'
GLP = 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc'
# C08
m('C08', 1, PG, 'decrease_block_weight(from, weight);', 'decrease_block_weight(to, weight);')
m('C08', 1, PG, '        decrease_block_weight(from, delta);\n', '')
m('C08', 1, PG, 'new_weight + delta <= max_to_weight', 'new_weight <= max_to_weight')
m('C08', 1, PG, '              new_weight + delta,\n', '              block_weight(to) + delta,\n')
m('C08', 1, PG, 'b != kInvalidBlockID) {\n              block_weights', 'b != kInvalidBlockID && this->degree(u) > 0) {\n              block_weights')
m('C08', 1, DPG, '_block_weights_delta[old_block] -= w;', '_block_weights_delta[old_block] -= 1;')
m('C08', 1, DPG, 'const BlockID old_block = block(node);', 'const BlockID old_block = _p_graph->block(node);')
m('C08', 1, DPG, '    std::fill(_block_weights_delta.begin(), _block_weights_delta.end(), 0);\n', '')
m('C08', 1, DDPG, '_block_weights[block(u)], u_weight', '_block_weights[b], u_weight')
m('C08', 1, DDPG, '    __atomic_store_n(&_partition[u], b, __ATOMIC_RELAXED);\n  }', '  }')
m('C08', 1, LP, '_cluster_weights[new_cluster] + delta <= max_weight', '_cluster_weights[new_cluster] <= max_weight')
m('C08', 1, LP, '__atomic_fetch_sub(&_cluster_weights[old_cluster], delta', '__atomic_fetch_sub(&_cluster_weights[old_cluster], max_weight')
m('C08', 1, LP, '      if (successful_weight_move) {\n        derived_move_node', '      {\n        derived_move_node')
m('C08', 1, LP, 'u_cluster, new_cluster, u_weight, derived_max_cluster_weight(new_cluster)', 'u_cluster, new_cluster, u_weight, derived_max_cluster_weight(u_cluster)')
m('C08', 1, LP, """                  u, cluster, derived_cluster_weight(u), derived_max_cluster_weight(cluster)
              )) {
            derived_move_node(u, cluster);""", """                  u, cluster, derived_cluster_weight(cluster), derived_max_cluster_weight(cluster)
              )) {
            derived_move_node(u, cluster);""")
m('C08', 1, GLP, 'return lhs -= rhs; }, weight_delta', 'return lhs += rhs; }, weight_delta')
m('C08', 1, GLP, '        new_gcluster + 1, [](auto &lhs', '        old_gcluster + 1, [](auto &lhs')
m('C08', 1, 'kaminpar-dist/refinement/balancer/node_balancer.cc', '_p_graph.set_block_weight(to, _p_graph.block_weight(to) + weight);', '')
m('C08', 1, 'kaminpar-dist/refinement/balancer/node_balancer.cc', '_p_graph.block_weight(from) - weight', '_p_graph.block_weight(from) - 1')
m('C08', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '_p_graph.set_block_weight(candidate.to, _p_graph.block_weight(candidate.to) + candidate.weight);', '_p_graph.set_block_weight(candidate.to, _p_graph.block_weight(candidate.to) + candidate.gain);')
# harmless
m('C08', 0, PG, """      const NodeWeight weight = this->node_weight(u);
      if (const BlockID from = block(u); from != kInvalidBlockID) {
        decrease_block_weight(from, weight);
      }
      increase_block_weight(to, weight);""", """      const BlockID previous = block(u);
      const bool assigned = previous != kInvalidBlockID;
      increase_block_weight(to, this->node_weight(u));
      if (assigned) {
        decrease_block_weight(previous, this->node_weight(u));
      }""")
m('C08', 0, PG, """    for (BlockWeight new_weight = block_weight(to); new_weight + delta <= max_to_weight;) {
""", """    BlockWeight new_weight = block_weight(to);
    while (new_weight <= max_to_weight - delta) {
      const BlockWeight shifted = new_weight + delta;
      (void)shifted;
""")
m('C08', 0, DPG, '_block_weights_delta[old_block] -= w;\n      _block_weights_delta[new_block] += this->node_weight(node);', 'const auto shift = [&](const BlockID b, const NodeWeight by) { _block_weights_delta[b] += by; };\n      shift(old_block, -w);\n      shift(new_block, w);')
m('C08', 0, LP, """    if (_cluster_weights[new_cluster] + delta <= max_weight) {
      __atomic_fetch_add""", """    const ClusterWeight current = _cluster_weights[new_cluster];
    if (max_weight < current + delta) {
      return false;
    } else {
      __atomic_fetch_add""")
m('C08', 0, LP, """      if (successful_weight_move) {
        derived_move_node(u, new_cluster);""", """      if (!successful_weight_move) {
        return {false, false};
      }
      {
        derived_move_node(u, new_cluster);""")
m('C08', 1, 'kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.h', '_block_weights[b] += _graph->node_weight(u);', '_block_weights[b] += 1;')
m('C08', 1, 'kaminpar-shm/initial_partitioning/initial_flat_bipartitioner.h', '_block_weights[other_block(b)] -= u_weight;', '_block_weights[b] -= u_weight;')
m('C08', 1, 'kaminpar-dist/refinement/jet/jet_refiner.cc', '      __atomic_fetch_add(&_block_weight_deltas[to], w_u, __ATOMIC_RELAXED);\n', '')
# C05
FM = 'kaminpar-shm/refinement/fm/fm_refiner.cc'
GB = 'kaminpar-shm/refinement/balancer/greedy_balancer.cc'
m('C05', 1, FM, 'IFSTATS(stats(Statistic::NUM_PQ_UPDATES));', 'IFSTATS(update_block_pq());')
m('C05', 1, GB, 'IFSTATS(++_stats.num_pq_reinserts);', 'IFSTATS(_pq.clear());')
m('C05', 1, LP, 'IFSTATS(_expected_total_gain = 0);', 'IFSTATS(_current_num_clusters = 0);')
m('C05', 1, 'kaminpar-common/datastructures/binary_heap.h', 'KASSERT(_comparator(key(id), new_key));', 'KASSERT(_heap[_id_pos[id]].key <= new_key && (_heap[_id_pos[id]].key = new_key, true));')
m('C05', 1, PG, 'KASSERT(block(u) == from);', 'KASSERT((_partition[u] = to) != from);')
m('C05', 1, PG, 'KASSERT(block(u) == from);', 'KASSERT([&] { set_block<false>(u, to); return true; }());')
m('C05', 1, FM, 'IFSTATS(stats(Statistic::NUM_RECOMPUTED_GAINS));', 'IF_STATS { continue; }')
m('C05', 1, FM, 'DBG << "Expected gain of iteration', 'DBG << Random::instance().random_index(0, 5) << "Expected gain of iteration')
m('C05', 0, FM, 'IFSTATS(stats(Statistic::NUM_PQ_UPDATES));', 'IF_STATS { const auto s = Statistic::NUM_PQ_UPDATES; stats(s); }')
m('C05', 0, PG, 'KASSERT(block(u) == from);', 'KASSERT([&] { int z = 0; for (int i = 0; i < 3; ++i) { if (i == 1) continue; z += i; } return z >= 0 && block(u) == from; }());')
m('C05', 0, LP, 'IFSTATS(_expected_total_gain = 0);', 'if constexpr (kStatistics) { _expected_total_gain = 0; }')
# C21
m('C21', 1, 'kaminpar-shm/coarsening/cluster_coarsener.cc', 'std::span<const NodeID>', 'std::span<const BlockID>')
# C29
RC = 'kaminpar-common/random.cc'
RH = 'kaminpar-common/random.h'
m('C29', 1, RC, '  _next_random_bool = 0;\n', '')
m('C29', 1, RC, '  _next_random_bool = 0;\n  precompute_bools();', '  _next_random_bool = 0;')
m('C29', 1, RC, '  _seed = seed;\n', '')
m('C29', 1, RC, '  for (auto &instance : _instances) {\n    instance->reinit(seed);\n  }', '  for (std::size_t i = 1; i < _instances.size(); ++i) {\n    _instances[i]->reinit(seed);\n  }')
m('C29', 0, RC, '  for (auto &instance : _instances) {\n    instance->reinit(seed);\n  }', '  for (std::size_t i = 0; i < _instances.size(); ++i) {\n    _instances[i]->reinit(_seed);\n  }')
m('C29', 1, RC, '_generator(_seed + tbb', '_generator(tbb')
m('C29', 1, RC, '  _generator = std::mt19937(seed + tbb::this_task_arena::current_thread_index());\n  _next_random_bool = 0;\n  precompute_bools();', '  _next_random_bool = 0;\n  precompute_bools();\n  _generator = std::mt19937(seed + tbb::this_task_arena::current_thread_index());')
m('C29', 1, RH, 'std::shuffle(vec.begin(), vec.end(), _generator);', 'static thread_local std::mt19937 gen; std::shuffle(vec.begin(), vec.end(), gen);')
m('C29', 1, 'kaminpar-shm/kaminpar.cc', 'Random::reseed(seed);', 'Random::reseed(0);')
m('C29', 1, 'apps/KaMinPar.cc', '  KaMinPar::reseed(app.seed);\n', '')
m('C29', 1, 'apps/KaMinPar.cc', '  KaMinPar::reseed(app.seed);\n', '  if (app.verbosity > 0) KaMinPar::reseed(app.seed);\n')
m('C29', 1, 'apps/dKaMinPar.cc', 'dKaMinPar::reseed(app.seed);', 'dKaMinPar::reseed(app.num_threads);')
m('C29', 1, 'kaminpar-dist/algorithms/independent_set.cc', 'generator.seed(seed + node);', 'if (node == 0) generator.seed(seed + node);')
m('C29', 1, 'kaminpar-shm/initial_partitioning/seed_node_utils.cc', 'Random::instance().random_index(0, graph.n());', 'static_cast<NodeID>(std::time(nullptr) % graph.n());')
m('C29', 1, RC, '  _instances.push_back(std::make_unique<Random>());\n  return *_instances.back();', '  if (_instances.empty()) { _instances.push_back(std::make_unique<Random>()); return *_instances.back(); }\n  return *(new Random());')
m('C29', 0, RC, 'void Random::reinit(const int seed) {\n  _generator = std::mt19937(seed + tbb::this_task_arena::current_thread_index());', 'void Random::reinit(const int s) {\n  const auto index = tbb::this_task_arena::current_thread_index();\n  _generator.seed(s + index);')

# C07
SG, CG, DG, DC, DD = 'kaminpar-shm/datastructures/graph.h', 'kaminpar-shm/datastructures/csr_graph.h', 'kaminpar-dist/datastructures/distributed_graph.h', 'kaminpar-dist/datastructures/distributed_csr_graph.h', 'kaminpar-dist/datastructures/distributed_compressed_graph.h'
m('C07', 1, SG, 'return _underlying_graph->first_invalid_node_in_bucket(bucket);', 'return _underlying_graph->first_node_in_bucket(bucket);')
m('C07', 1, SG, 'return _underlying_graph->max_node_weight();', 'return _underlying_graph->total_node_weight();')
m('C07', 0, SG, 'return _underlying_graph->max_node_weight();', 'const auto &g = *_underlying_graph; return g.max_node_weight();')
m('C07', 1, SG, 'return l1(*csr_graph);', 'return l2(*csr_graph);')
m('C07', 1, SG, 'graph.pfor_edges(std::forward<Lambda>(l));', 'graph.pfor_nodes(std::forward<Lambda>(l));')
m('C07', 1, DG, 'return _underlying_graph->offset_m(pe);', 'return _underlying_graph->offset_n(pe);')
m('C07', 1, DG, 'return _underlying_graph->map_remote_node(their_lnode, owner);', 'return _underlying_graph->map_remote_node(owner, their_lnode);')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_partitioned_graph.h', 'return _graph->ghost_n();', 'return _graph->n();')
m('C07', 1, 'kaminpar-shm/datastructures/graph_delegate.h', 'return _graph->total_edge_weight();', 'return _graph->m();')
m('C07', 1, CG, 'return first_node_in_bucket(bucket + 1);', 'return first_node_in_bucket(bucket) + bucket;')
m('C07', 0, CG, 'return first_node_in_bucket(bucket + 1);', 'return first_node_in_bucket(bucket) + bucket_size(bucket);')
m('C07', 1, CG, 'const EdgeID to = from + std::min(degree, max_num_neighbors);\n      for', 'const EdgeID to = from + std::min(degree, max_num_neighbors) - 1;\n      for')
m('C07', 1, CG, 'return is_edge_weighted() ? _edge_weights[e] : 1;', 'return is_node_weighted() ? _edge_weights[e] : 1;')
m('C07', 1, CG, 'decode_neighbors([](const EdgeID) { return 1; });', 'decode_neighbors([](const EdgeID) { return 0; });')
m('C07', 1, DC, 'return (offset_n() <= global_u && global_u < offset_n() + n());', 'return (offset_n() <= global_u && global_u <= offset_n() + n());')
m('C07', 0, DC, 'return (offset_n() <= global_u && global_u < offset_n() + n());', 'return !(global_u < offset_n() || global_u >= offset_n() + n());')
m('C07', 1, DD, '_ghost_node_mapping.ghost_to_global(local_u - n());', '_ghost_node_mapping.ghost_to_global(local_u);')
m('C07', 1, DD, '_ghost_node_mapping.ghost_owner(u - n());', '_ghost_node_mapping.ghost_owner(u - ghost_n());')
m('C07', 1, DC, '_offset_m = _edge_distribution[rank];', '_offset_m = _edge_distribution[rank + 1];')
m('C07', 1, DC, 'return {static_cast<NodeID>(0), total_n()};', 'return {static_cast<NodeID>(0), n()};')
m('C07', 1, DD, 'pfor_nodes(n(), total_n(), std::forward<Lambda>(l));', 'pfor_nodes(n(), ghost_n(), std::forward<Lambda>(l));')
m('C07', 1, DD, 'return _color_sizes[c + 1] - _color_sizes[c];', 'return _color_sizes[c + 1];')
m('C07', 1, 'kaminpar-shm/datastructures/delta_partitioned_graph.h', 'return _p_graph->block_weight(block) + _block_weights_delta[block];', 'return _p_graph->block_weight(block) - _block_weights_delta[block];')
m('C07', 1, 'kaminpar-shm/datastructures/delta_partitioned_graph.h', 'return (it != _partition_delta.end()) ? *it', 'return (it == _partition_delta.end()) ? *it')
m('C07', 0, CG, '      const EdgeID from = _nodes[u];\n      const EdgeID to = _nodes[u + 1];\n      for (EdgeID edge = from; edge < to; ++edge) {\n        if constexpr (kNonStoppable) {\n          invoke_caller(edge);', '      for (EdgeID edge = first_edge(u); edge != first_invalid_edge(u); edge++) {\n        if constexpr (kNonStoppable) {\n          invoke_caller(edge);')
# C22
CSRC, CEB, TOK = 'kaminpar-shm/datastructures/csr_graph.cc', 'kaminpar-common/graph_compression/compressed_edges_builder.h', 'apps/io/file_toker.h'
m('C22', 1, CSRC, '      _sorted(graph.sorted()),\n', '')
m('C22', 1, CSRC, '      _sorted(sorted),\n', '')
m('C22', 1, 'kaminpar-dist/context.cc', '      epsilon(other.epsilon),\n', '')
m('C22', 1, 'kaminpar-dist/context.cc', '  K = other.K;\n', '')
m('C22', 1, 'kaminpar-dist/context.cc', '  K = other.K;\n', '  K = other.k;\n')
m('C22', 0, 'kaminpar-dist/context.cc', '  k = other.k;\n  K = other.K;\n', '  K = other.K;\n  k = other.k;\n')
m('C22', 1, CEB, '    _num_intervals = 0;\n', '')
m('C22', 1, CEB, '    _max_degree = 0;\n', '    if (_num_intervals > 0) {\n      _max_degree = 0;\n    }\n')
m('C22', 1, TOK, '    _position = 0;\n    _length', '    _length')
m('C22', 1, TOK, '    _length = static_cast<std::size_t>(file_info.st_size);\n', '')
m('C22', 1, 'kaminpar-dist/refinement/balancer/node_balancer.cc', '    std::size_t num_rejected_candidates;\n', '    std::size_t num_rejected_candidates;\n    BlockID last_block;\n    if (_p_graph.k() > 2) {\n      last_block = 1;\n    }\n    if (candidates.size() > 5 && last_block > 3) {\n      return true;\n    }\n')
m('C22', 0, TOK, '    _position = 0;\n    _length', '    reset();\n    _length')
m('C22', 1, 'kaminpar-common/parallel/atomic.h', 'Atomic(const Atomic &other) : _value(other._value.load()) {}', 'Atomic(const Atomic &other) { (void)other; }')
m('C22', 1, 'kaminpar-common/timer.h', '_timer{other._timer} {', '_timer{nullptr} {')
# C18
def a18(f, kind, var, val, n=0): m('C18', 1, f, '__atomic_fetch_%s(&%s, %s, __ATOMIC_RELAXED)' % (kind, var, val), '%s %s= %s' % (var, '+' if kind == 'add' else '-', val), n)
a18('kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', 'add', '_total_edge_weight', 'edge_weight')
a18('kaminpar-dist/refinement/lp/lp_refiner.cc', 'sub', 'block_weight_deltas[from]', 'u_weight')
a18('kaminpar-dist/refinement/lp/lp_refiner.cc', 'add', '_block_weights[to]', 'delta')
a18('kaminpar-dist/refinement/lp/clp_refiner.cc', 'add', '_color_sizes[c]', '1')
a18('kaminpar-dist/refinement/jet/jet_refiner.cc', 'sub', '_block_weight_deltas[from]', 'w_u')
a18('kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', 'sub', '_local_cluster_weights[old_lcluster]', 'weight_delta')
a18('kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', 'add', 'buckets_position_buffer[lcnode]', '1')
a18('kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', 'add', 'c_node_weights[c_u]', 'local_nodes[i].weight')
a18('kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc', 'add', 'buckets_index[mapping[u]]', '1')
a18('kaminpar-dist/distributed_label_propagation.h', 'add', '_cluster_weights[new_cluster]', 'delta')
a18('kaminpar-dist/graphutils/rearrangement.cc', 'add', 'color_sizes[c]', '1')
a18('kaminpar-shm/refinement/gains/dense_gain_cache.h', 'sub', '_gain_cache[index(v, block_from)]', 'weight')
a18('kaminpar-shm/refinement/gains/hashing_gain_cache.h', 'add', '_gain_cache[index_full_table(v, block_to)]', 'weight')
a18('kaminpar-shm/refinement/gains/sparse_gain_cache.h', 'add', '_gain_cache[index_sparse(v, block_to)]', 'weight')
a18('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', 'add', 'edge_collector[c_v]', 'w')
a18('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', 'add', 'cur_edge', 'local_neighbors.size()')
a18('kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc', 'add', 'buckets_index[mapping[u]]', '1')
a18('kaminpar-shm/label_propagation.h', 'add', '_cluster_weights[new_cluster]', 'delta')
a18('kaminpar-shm/label_propagation.h', 'add', 'map[cluster]', 'rating')
m('C18', 1, 'kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc', 'buckets[__atomic_sub_fetch(&buckets_index[mapping[u]], 1, __ATOMIC_RELAXED)] = u;', 'buckets[--buckets_index[mapping[u]]] = u;')
m('C18', 1, 'kaminpar-shm/refinement/fm/border_nodes.h', 'tbb::concurrent_vector<NodeID> _border_nodes;', 'std::vector<NodeID> _border_nodes;')
m('C18', 1, 'kaminpar-shm/label_propagation.h', '  parallel::Atomic<ClusterID> _current_num_clusters;', '  ClusterID _current_num_clusters;')
m('C18', 1, 'kaminpar-dist/graphutils/subgraph_extractor.cc', 'std::vector<parallel::Atomic<NodeID>>()', 'std::vector<NodeID>()')
m('C18', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', 'std::vector<parallel::Atomic<std::size_t>> num_messages', 'std::vector<std::size_t> num_messages')
m('C18', 1, 'kaminpar-shm/partitioning/deep/async_initial_partitioning.cc', 'copy, // `copy` must be captured by value', '&copy,')
# C15
m('C15', 1, 'kaminpar-dist/refinement/lp/lp_refiner.cc', 'if (global_num_moved_nodes == 0) {', 'if (num_moved_nodes == 0) {')
m('C15', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', 'if (global_num_moved_nodes > 0) {', 'if (local_num_moved_nodes > 0) {')
m('C15', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', '        mpi::allreduce<GlobalNodeID>(local_num_moved_nodes, MPI_SUM, _graph->communicator());', '        local_num_moved_nodes;')
m('C15', 1, 'kaminpar-dist/algorithms/greedy_node_coloring.h', 'while (!mpi::allreduce(converged, MPI_LAND, graph.communicator()))', 'while (!converged)')
m('C15', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', 'const ColorID num_colors = mpi::allreduce(num_local_colors, MPI_MAX, graph.communicator());', 'const ColorID num_colors = num_local_colors;')
m('C15', 1, 'kaminpar-dist/coarsening/clustering/hem/hem_lp_clusterer.cc', 'mpi::allreduce<GlobalNodeID>(num_matched_edges, MPI_SUM, _graph->communicator());', 'num_matched_edges;')
m('C15', 1, 'kaminpar-dist/partitioning/deep_multilevel.cc', 'mpi::bcast(initial_rank, 0, graph->communicator()) == 0', 'initial_rank < current_num_pes')
m('C15', 1, 'kaminpar-dist/partitioning/deep_multilevel.cc', 'while (!converged && graph->global_n() > desired_num_nodes)', 'while (!converged && graph->n() > desired_num_nodes)')
m('C15', 1, 'kaminpar-dist/coarsening/global_cluster_coarsener.cc', '  _clusterer->set_max_cluster_weight(max_cluster_weight());', '  if (graph.n() == 0) {\n    return false;\n  }\n  _clusterer->set_max_cluster_weight(max_cluster_weight());')
m('C15', 1, 'kaminpar-dist/refinement/jet/jet_refiner.cc', '        synchronize_ghost_node_labels();', '        if (_graph.ghost_n() > 0) {\n          synchronize_ghost_node_labels();\n        }')
m('C15', 1, 'kaminpar-dist/refinement/balancer/node_balancer.cc', '    if (rank == 0) {', '    if (rank == 0 || perform_binary_reduction_skip()) {\n      mpi::barrier(_p_graph.communicator());')
m('C15', 1, 'kaminpar-dist/metrics.cc', '  GlobalNodeWeight total_local_node_weight = p_graph.total_node_weight();', '  if (p_graph.n() == 0) {\n    return 0.0;\n  }\n  GlobalNodeWeight total_local_node_weight = p_graph.total_node_weight();')
m('C15', 1, 'kaminpar-dist/graphutils/replicator.cc', 'mpi::allreduce<std::uint8_t>(graph.is_node_weighted(), MPI_MAX, graph.communicator());', 'graph.is_node_weighted();')
m('C15', 1, 'kaminpar-dist/graphutils/replicator.cc', 'mpi::allreduce<std::uint8_t>(graph.is_edge_weighted(), MPI_MAX, graph.communicator());', 'graph.is_edge_weighted();', 1)
m('C15', 0, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', 'if (global_num_moved_nodes > 0) {', 'const bool any = global_num_moved_nodes != 0;\n    if (any) {')
m('C15', 0, 'kaminpar-dist/refinement/lp/lp_refiner.cc', 'if (global_num_moved_nodes == 0) {', 'if (num_moved_nodes == 0) {\n      DBG << 1;\n    }\n    if (global_num_moved_nodes == 0) {')
m('C15', 0, 'kaminpar-dist/metrics.cc', '  GlobalNodeWeight total_local_node_weight = p_graph.total_node_weight();', '  GlobalNodeWeight total_local_node_weight = p_graph.n() == 0 ? 0 : p_graph.total_node_weight();')

# C16
GC = 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc'
RP = 'kaminpar-dist/graphutils/replicator.cc'
m('C16', 1, 'kaminpar-mpi/datatype.h', 'return MPI_UINT32_T;', 'return MPI_INT32_T;')
m('C16', 1, 'kaminpar-mpi/datatype.h', 'return MPI_UINT64_T;', 'return MPI_UINT32_T;')
m('C16', 1, 'kaminpar-mpi/alltoall.h', 'mpi::waitall(requests);', '')
m('C16', 1, 'kaminpar-mpi/sparse_allreduce.h', '    MPI_Wait(&send_req, MPI_STATUS_IGNORE);\n', '')
m('C16', 1, 'kaminpar-mpi/sparse_allreduce.h', 'MPI_Get_count(&probe, mpi_type, &recv_size);', 'MPI_Get_count(&probe, MPI_BYTE, &recv_size);')
m('C16', 1, RP, 'MPI_Allreduce(MPI_IN_PLACE, &best_cut_loc, 1, MPI_LONG_INT', 'MPI_Allreduce(MPI_IN_PLACE, &best_cut_loc, 1, MPI_2INT')
m('C16', 1, RP, 'MPI_Allreduce(&local, &global, 1, MPI_LONG_INT', 'MPI_Allreduce(&local, &global, 1, MPI_DOUBLE_INT')
m('C16', 1, RP, '      mpi::type::get<BlockID>(),\n      p_graph', '      mpi::type::get<NodeWeight>(),\n      p_graph')
m('C16', 1, 'kaminpar-dist/refinement/jet/jet_refiner.cc', 'mpi::type::get<BlockWeight>(),\n        MPI_SUM', 'mpi::type::get<BlockID>(),\n        MPI_SUM')
m('C16', 1, 'kaminpar-dist/refinement/balancer/cluster_balancer.cc', 'MPI_Bcast(cut_off_buckets.data(), num_overloaded_blocks, MPI_INT,', 'MPI_Bcast(cut_off_buckets.data(), num_overloaded_blocks, MPI_INT64_T,')
m('C16', 1, GC, 'MPI_Alltoall(sendcounts.data(), 1, MPI_INT, recvcounts.data(), 1, MPI_INT', 'MPI_Alltoall(sendcounts.data(), 1, MPI_INT, recvcounts.data(), 1, MPI_UINT64_T')
m('C16', 0, GC, 'MPI_Alltoall(sendcounts.data(), 1, MPI_INT, recvcounts.data(), 1, MPI_INT', 'MPI_Alltoall(sendcounts.data(), 1, mpi::type::get<int>(), recvcounts.data(), 1, MPI_INT32_T')
m('C16', 0, 'kaminpar-dist/refinement/jet/jet_refiner.cc', 'mpi::type::get<BlockWeight>(),\n        MPI_SUM', 'mpi::type::get<typename std::decay_t<decltype(_block_weight_deltas)>::value_type>(),\n        MPI_SUM')

# C20
BC = 'kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc'
SX = 'kaminpar-shm/graphutils/subgraph_extractor.cc'
m('C20', 1, BC, 'EdgeID fine_degree = 0;', 'NodeID fine_degree = 0;')
m('C20', 1, BC, 'const EdgeID first_target_index = c_nodes[c_u];', 'const NodeID first_target_index = c_nodes[c_u];')
m('C20', 1, BC, 'for (EdgeID j = 0; j < c_u_degree; ++j) {', 'for (NodeID j = 0; j < static_cast<NodeID>(first_target_index + c_u_degree) - first_target_index; ++j) {')
m('C20', 1, SX, 'const EdgeID m1 = s_m[0];', 'const NodeID m1 = s_m[0];')
m('C20', 1, SX, 'EdgeID num_edges = 0;', 'NodeID num_edges = 0;')
m('C20', 1, 'kaminpar-shm/metrics.h', 'tbb::enumerable_thread_specific<int64_t> cut_ets;', 'tbb::enumerable_thread_specific<std::int32_t> cut_ets;')
m('C20', 1, 'kaminpar-shm/refinement/gains/dense_gain_cache.h', '1ull * node * _k + block', 'node * _k + block')
m('C20', 1, 'kaminpar-shm/refinement/gains/dense_gain_cache.h', 'const std::size_t gc_size = 1ull * _n * _k;', 'const std::size_t gc_size = _n * _k;')
m('C20', 1, 'kaminpar-dist/metrics.cc', 'tbb::enumerable_thread_specific<GlobalEdgeWeight> cut_ets;', 'tbb::enumerable_thread_specific<EdgeWeight> cut_ets;')
m('C20', 1, 'kaminpar-dist/metrics.cc', '  const GlobalEdgeWeight global_edge_cut =\n', '  const EdgeWeight global_edge_cut =\n')
m('C20', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'EdgeWeight current_total_gain = 0;', 'int current_total_gain = 0;')
m('C20', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'const EdgeWeight gain = compute_gain();', 'const int gain = compute_gain();')
m('C20', 1, 'kaminpar-dist/refinement/balancer/clusters.cc', '1ull * cur_move_set * p_graph.k() + bv', 'cur_move_set * p_graph.k() + bv')
m('C20', 0, BC, 'EdgeID fine_degree = 0;', 'std::uint64_t fine_degree = 0;')
m('C20', 0, 'kaminpar-dist/metrics.cc', '  const GlobalEdgeWeight global_edge_cut =\n', '  const auto global_edge_cut =\n')
m('C20', 0, 'kaminpar-shm/refinement/gains/dense_gain_cache.h', '1ull * node * _k + block', 'static_cast<std::size_t>(node) * _k + block')
m('C20', 0, 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'const EdgeWeight gain = compute_gain();', 'const auto gain = compute_gain();')

# C10
GN = 'kaminpar-shm/refinement/gains/'
m('C10', 1, GN + 'dense_gain_cache.h', '__atomic_fetch_sub(&_gain_cache[index(v, block_from)]', '__atomic_fetch_sub(&_gain_cache[index(node, block_from)]')
m('C10', 1, GN + 'hashing_gain_cache.h', 'table.decrease_by(block_from, weight);\n        table.increase_by(block_to, weight);', 'table.increase_by(block_to, weight);')
m('C10', 1, GN + 'sparse_gain_cache.h', 'table.increase_by(block_to, weight);', 'table.increase_by(block_to, 1);')
m('C10', 1, GN + 'compact_hashing_gain_cache.h', 'hash_table.decrease_by(block_from, weight);', 'if (v != node + 1) hash_table.decrease_by(block_from, weight);')
m('C10', 1, GN + 'compact_hashing_gain_cache.h', '__atomic_fetch_add(full_table + block_to, weight', '__atomic_fetch_add(full_table + block_from, weight')
m('C10', 1, GN + 'sparse_gain_cache.h', 'for (BlockID to = 0; to < _k; ++to) {', 'for (BlockID to = 1; to < _k; ++to) {')
m('C10', 1, GN + 'hashing_gain_cache.h', 'for (BlockID to = 0; to < _k; ++to) {', 'for (BlockID to = 0; to + 1 < _k; ++to) {')
m('C10', 1, GN + 'hashing_gain_cache.h', 'return weighted_degree(node) != weighted_degree_to(node, block_of_node);', 'return weighted_degree_to(node, block_of_node) == 0;')
m('C10', 1, GN + 'sparse_gain_cache.h', '        buffer.clear();', '')
m('C10', 1, GN + 'on_the_fly_gain_cache.h', '      map.clear();\n', '')
m('C10', 1, GN + 'delta_gain_caches.h', 'return gain() + conn_delta(node, to) - conn_from_delta;', 'return gain() - conn_from_delta;')
m('C10', 1, GN + 'delta_gain_caches.h', '    _adjacent_blocks_delta.clear();\n', '')
m('C10', 1, GN + 'delta_gain_caches.h', 'kIteratesExactGains ? _gain_cache.gain(node, from, to) : _gain_cache.conn(node, to)', '_gain_cache.gain(node, from, to)')
m('C10', 1, GN + 'on_the_fly_gain_cache.h', '} else if (b_v == targets.second) {', '} else if (b_v == targets.first) {')
m('C10', 1, GN + 'dense_gain_cache.h', '1ull * node * _k + block', '1ull * node * (_k - 1) + block')
m('C10', 1, GN + 'dense_gain_cache.h', '      _weighted_degrees[u] = 0;\n', '')
m('C10', 1, GN + 'hashing_gain_cache.h', '    reset();\n    recompute();', '    recompute();')
m('C10', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', '            _shared.gain_cache.move(moved_node, moved_from, moved_to);\n', '')
m('C10', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', '          _d_gain_cache.clear();\n          _stopping', '          _stopping')
m('C10', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'const BlockID moved_from = _p_graph.block(moved_node);', '_p_graph.set_block(moved_node, moved_to);\n            const BlockID moved_from = _p_graph.block(moved_node);')
m('C10', 1, 'kaminpar-shm/refinement/jet/jet_refiner.cc', '        gain_cache.initialize(p_graph.graph(), p_graph);\n        balancer.init', '        balancer.init')
m('C10', 1, 'kaminpar-shm/refinement/jet/jet_refiner.cc', 'gain_cache.move(u, from, to);', 'if (from < to) gain_cache.move(u, from, to);')
m('C10', 1, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', '_gain_cache->move(u, from, to);', '_gain_cache->move(u, to, from);')
m('C10', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', 'insert_into_node_pq(_d_graph, _d_gain_cache, v);', 'insert_into_node_pq(_d_graph, _shared.gain_cache, v);')
m('C10', 0, GN + 'dense_gain_cache.h', '__atomic_fetch_sub(&_gain_cache[index(v, block_from)], weight, __ATOMIC_RELAXED);', 'const std::size_t pos = index(v, block_from);\n      __atomic_fetch_sub(&_gain_cache[pos], weight, __ATOMIC_RELAXED);')
m('C10', 0, GN + 'hashing_gain_cache.h', '        if (from == to) {\n          continue;\n        }\n\n        if constexpr (kIteratesNonadjacentBlocks) {\n          lambda(to, [&] { return conn_full_table(node, to) - conn_from; });\n        } else {', '        if (from == to) continue;\n        if constexpr (kIteratesNonadjacentBlocks) {\n          lambda(to, [&] { const EdgeWeight c = conn_full_table(node, to); return c - conn_from; });\n        } else {')
m('C10', 0, GN + 'hashing_gain_cache.h', 'return weighted_degree(node) != weighted_degree_to(node, block_of_node);', 'const EdgeWeight internal = weighted_degree_to(node, block_of_node);\n    return !(internal == weighted_degree(node));')
m('C10', 0, 'kaminpar-shm/refinement/fm/fm_refiner.cc', '          _p_graph.set_block(node, block_to);\n          _shared.gain_cache.move(node, block_from, block_to);', '          _shared.gain_cache.move(node, block_from, block_to);\n          _p_graph.set_block(node, block_to);')
m('C10', 0, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', 'if (_p_graph->move(u, from, to, _p_ctx->max_block_weight(to))) {', 'const bool success = _p_graph->move(u, from, to, _p_ctx->max_block_weight(to));\n    if (success) {')
m('C10', 0, 'kaminpar-shm/refinement/jet/jet_refiner.cc', 'const BlockID to = next_partition[u];\n\n            p_graph.set_block(u, to);\n            gain_cache.move(u, from, to);', 'p_graph.set_block(u, next_partition[u]);\n            gain_cache.move(u, from, next_partition[u]);')
m('C10', 0, GN + 'dense_gain_cache.h', '    tbb::parallel_for<std::size_t>(0, 1ull * _n * _k, [this](const std::size_t i) {\n      _gain_cache[i] = 0;\n    });', '    std::fill(_gain_cache.begin(), _gain_cache.end(), 0);')
# C19
SGC = 'kaminpar-shm/refinement/gains/sparse_gain_cache.h'
HGC = 'kaminpar-shm/refinement/gains/hashing_gain_cache.h'
CGC = 'kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h'
NT = 'kaminpar-shm/refinement/fm/node_tracker.h'
FMR = 'kaminpar-shm/refinement/fm/fm_refiner.cc'
BN = 'kaminpar-shm/refinement/fm/border_nodes.h'
HEM = 'kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc'
CNB = 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h'
HPC = 'kaminpar-common/heap_profiler.cc'
m('C19', 1, SGC, 'kWeightedDegreeMask, __ATOMIC_RELEASE', 'kWeightedDegreeMask, __ATOMIC_RELAXED')
m('C19', 1, HGC, '        __ATOMIC_ACQUIRE,\n', '        __ATOMIC_RELAXED,\n')
m('C19', 1, HGC, '        unlock(v);\n', '')
m('C19', 1, SGC, '        unlock(v);\n', '        if (was_inserted) unlock(v);\n')
m('C19', 1, CGC, '        lock(v);\n', '')
m('C19', 1, CGC, """        lock(v);
        with_hash_table(v,""", """        lock(v);
        unlock(v);
        with_hash_table(v,""")
m('C19', 1, HGC, '        lock(v);\n', '')
m('C19', 1, CGC, 'state | kWeightedDegreeLock', 'state')
m('C19', 1, SGC, """      while (state & kWeightedDegreeLock) {
        state = __atomic_load_n(&_weighted_degrees[node], __ATOMIC_RELAXED);
      }
""", '')
m('C19', 1, SGC, 'while (state & kWeightedDegreeLock) {', 'if (state & kWeightedDegreeLock) {')
m('C19', 1, SGC, '_weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE', '_weighted_degrees[node], __ATOMIC_RELEASE')
m('C19', 1, HGC, 'return static_cast<EdgeWeight>(_weighted_degrees[node] & kWeightedDegreeMask);', 'return static_cast<EdgeWeight>(_weighted_degrees[node]);')
m('C19', 1, PG, """    for (BlockWeight new_weight = block_weight(to); new_weight + delta <= max_to_weight;) {""", """    const BlockWeight limit = max_to_weight;
    for (BlockWeight new_weight = block_weight(from); new_weight + delta <= limit;) {""")
m('C19', 1, PG, """    for (BlockWeight new_weight = block_weight(to); new_weight + delta <= max_to_weight;) {
      if (__atomic_compare_exchange_n(""", """    BlockWeight new_weight = block_weight(to);
    while (new_weight + delta <= max_to_weight) {
      while (!__atomic_compare_exchange_n(&_block_weights[to], &new_weight, new_weight + delta, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
      decrease_block_weight(from, delta);
      return true;
    }
    for (; new_weight + delta <= max_to_weight;) {
      if (__atomic_compare_exchange_n(""")
m('C19', 1, CNB, """      if (success) {
        break;
      }
""", """      break;
""")
m('C19', 1, HEM, 'while (!__atomic', 'while (__atomic')
m('C19', 1, HEM, """        if (__atomic_compare_exchange_n(
                &_matching[best_neighbor],
                &unmatched,
                neighbor_global,
                true,
                __ATOMIC_SEQ_CST,
                __ATOMIC_SEQ_CST
            )) {""", """        __atomic_compare_exchange_n(
            &_matching[best_neighbor], &unmatched, neighbor_global, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST
        );
        {""")
m('C19', 1, NT, 'value, __ATOMIC_RELEASE', 'value, __ATOMIC_RELAXED')
m('C19', 1, NT, 'return __atomic_compare', 'return !__atomic_compare')
m('C19', 1, FMR, '            _touched_nodes.push_back(v);\n', '')
m('C19', 1, FMR, '            _touched_nodes.push_back(v);\n', '            if (_d_graph.block(v) != block_to) {\n              _touched_nodes.push_back(v);\n            }\n')
m('C19', 1, FMR, '    _touched_nodes.clear();\n', '')
m('C19', 1, FMR, """      } else if (owner == _id) {
        _shared.node_tracker.set(node, NodeTracker::UNLOCKED);
      }""", '      }')
m('C19', 1, FMR, 'owner == NodeTracker::UNLOCKED && _shared.node_tracker.lock(v, _id)', 'owner == NodeTracker::UNLOCKED')
m('C19', 0, FMR, 'owner == NodeTracker::UNLOCKED && _shared.node_tracker.lock(v, _id)', '_shared.node_tracker.lock(v, _id)')
m('C19', 1, FMR, """    for (const NodeID touched_node : _touched_nodes) {
      unlock_touched_node(touched_node);
    }
""", '')
m('C19', 1, BN, 'if (_node_tracker.owner(node) == NodeTracker::UNLOCKED && _node_tracker.lock(node, id)) {', 'if (_node_tracker.owner(node) == NodeTracker::UNLOCKED) {\n          _node_tracker.lock(node, id);')
m('C19', 1, BN, '          lambda(node);\n', '          if (polled < count) {\n            lambda(node);\n          }\n')
m('C19', 1, HPC, """    std::lock_guard<std::mutex> guard(_mutex);

    HeapProfileTreeNode *node =""", """    HeapProfileTreeNode *node =""")
m('C19', 1, HPC, """    std::lock_guard<std::mutex> guard(_mutex);

    if (auto search""", """    std::lock_guard<std::mutex>{_mutex};

    if (auto search""")
m('C19', 1, 'kaminpar-common/random.cc', '  std::lock_guard<std::mutex> lock(_create_mutex);\n', '')
m('C19', 1, 'kaminpar-common/random.cc', 'std::lock_guard<std::mutex> lock(_create_mutex);', 'std::mutex m;\n  std::lock_guard<std::mutex> lock(m);')
m('C19', 1, 'kaminpar-common/timer.h', """    std::lock_guard<std::mutex> lg(_mutex);
    _disabled++;""", """    _disabled++;""")
# harmless
m('C19', 0, PG, """    for (BlockWeight new_weight = block_weight(to); new_weight + delta <= max_to_weight;) {
      if (__atomic_compare_exchange_n(
              &_block_weights[to],
              &new_weight,
              new_weight + delta,
              false,
              __ATOMIC_RELAXED,
              __ATOMIC_RELAXED
          )) {
        decrease_block_weight(from, delta);
        return true;
      }
    }

    return false;""", """    BlockWeight old_weight = __atomic_load_n(&_block_weights[to], __ATOMIC_RELAXED);
    while (true) {
      const BlockWeight wanted = old_weight + delta;
      if (wanted > max_to_weight) {
        return false;
      }
      const bool moved = __atomic_compare_exchange_n(
          &_block_weights[to], &old_weight, wanted, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED
      );
      if (moved) {
        break;
      }
    }
    decrease_block_weight(from, delta);
    return true;""")
m('C19', 0, CNB, """    while (max_degree > global_max_degree) {
      const bool success = __atomic_compare_exchange_n(
          &_max_degree, &global_max_degree, max_degree, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED
      );

      if (success) {
        break;
      }
    }
""", """    while (max_degree > global_max_degree &&
           !__atomic_compare_exchange_n(
               &_max_degree, &global_max_degree, max_degree, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED
           )) {
    }
""")
m('C19', 0, SGC, """    do {
      while (state & kWeightedDegreeLock) {
        state = __atomic_load_n(&_weighted_degrees[node], __ATOMIC_RELAXED);
      }
    } while (!__atomic_compare_exchange_n(
        &_weighted_degrees[node],
        &state,
        state | kWeightedDegreeLock,
        false,
        __ATOMIC_ACQUIRE,
        __ATOMIC_RELAXED
    ));""", """    while (true) {
      if ((state & kWeightedDegreeLock) != 0) {
        state = __atomic_load_n(&_weighted_degrees[node], __ATOMIC_RELAXED);
        continue;
      }
      const UnsignedEdgeWeight locked = state | kWeightedDegreeLock;
      if (__atomic_compare_exchange_n(
              &_weighted_degrees[node], &state, locked, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED
          )) {
        return;
      }
    }""")
m('C19', 0, SGC, """    __atomic_store_n(
        &_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE
    );""", """    __atomic_fetch_and(&_weighted_degrees[node], kWeightedDegreeMask, __ATOMIC_RELEASE);""")
m('C19', 0, HGC, """        lock(v);
        auto table = create_hash_table(v);""", """        auto table = create_hash_table(v);
        lock(v);""")
m('C19', 0, FMR, """    for (const NodeID touched_node : _touched_nodes) {
      unlock_touched_node(touched_node);
    }
""", """    for (auto it = _touched_nodes.size(); it-- > 0;) {
      unlock_touched_node(_touched_nodes[it]);
    }
""")
m('C19', 0, FMR, """          } else if (owner == NodeTracker::UNLOCKED && _shared.node_tracker.lock(v, _id)) {
            IFSTATS(stats(Statistic::NUM_PQ_INSERTS));
            IFSTATS(stats(Statistic::NUM_TOUCHED_NODES));

            insert_into_node_pq(_d_graph, _d_gain_cache, v);
            _touched_nodes.push_back(v);
          }""", """          } else if (owner == NodeTracker::UNLOCKED) {
            const bool mine = _shared.node_tracker.lock(v, _id);
            if (!mine) {
              return;
            }
            _touched_nodes.push_back(v);
            insert_into_node_pq(_d_graph, _d_gain_cache, v);
          }""")
m('C19', 0, FMR, """    // Keep track of the current (expected) gain""", """    if (_seed_nodes.empty()) {
      return 0;
    }

    // Keep track of the current (expected) gain""")
m('C19', 0, HEM, """      GlobalNodeID new_partner = current_partner;
      do {
        const""", """      GlobalNodeID new_partner = 0;
      do {
        const""")

# C31
ME = 'kaminpar-shm/metrics.h'
DME = 'kaminpar-dist/metrics.cc'
KA = 'kaminpar-shm/kaminpar.cc'
DKA = 'kaminpar-dist/dkaminpar.cc'
CG = 'kaminpar-shm/datastructures/csr_graph.cc'
PE = 'kaminpar-shm/graphutils/permutator.cc'
m('C31', 1, ME, 'blocked_range<NodeID>(0, graph.n())', 'blocked_range<NodeID>(1, graph.n())')
m('C31', 1, ME, '(p_graph.block(u) != p_graph.block(v)) ? w : 0', '(p_graph.block(u) != p_graph.block(v)) ? 1 : 0')
m('C31', 1, ME, '(p_graph.block(u) != p_graph.block(v)) ? w : 0', '(p_graph.block(u) == p_graph.block(v)) ? w : 0', 1)
m('C31', 1, ME, '(p_graph.block(u) != p_graph.block(v)) ? w : 0', '(p_graph.block(u) > p_graph.block(v)) ? w : 0', 1)
m('C31', 1, ME, 'EdgeWeight>(cut / 2)', 'EdgeWeight>(cut)', 1)
m('C31', 1, ME, 'std::ceil(1.0 * p_graph.total_node_weight() / p_graph.k())', 'std::ceil(p_graph.total_node_weight() / p_graph.k())')
m('C31', 1, ME, 'perfect_block_weight - 1.0', 'perfect_block_weight')
m('C31', 1, ME, 'p_graph.total_node_weight() / p_graph.k());', 'p_graph.n() / p_graph.k());')
m('C31', 1, ME, 'std::max<BlockWeight>(0, p_graph.block_weight(b) - p_ctx.max_block_weight(b))', '(p_graph.block_weight(b) - p_ctx.max_block_weight(b))')
m('C31', 1, ME, 'std::max<BlockWeight>(0, p_graph.block_weight(b) - p_ctx.max_block_weight(b))', 'std::max<BlockWeight>(0, p_graph.block_weight(b) - p_ctx.max_block_weight(0))')
m('C31', 1, ME, 'p_graph.block_weight(b) <= p_ctx.max_block_weight(b);', 'p_graph.block_weight(b) < p_ctx.max_block_weight(b);')
m('C31', 1, ME, 'p_graph.block_weight(b) <= p_ctx.max_block_weight(b);', 'p_graph.block_weight(b) <= p_ctx.max_block_weight(b) + 1;')
m('C31', 1, ME, 'p_graph.block_weight(b) <= p_ctx.max_block_weight(b);', 'p_graph.block_weight(b) <= p_ctx.max_block_weight(0);')
m('C31', 1, ME, 'return std::all_of(', 'return std::any_of(')
m('C31', 1, ME, 'return is_balanced(p_graph, p_ctx);', 'return total_overload(p_graph, p_ctx) <= 1;')
m('C31', 0, ME, 'return is_balanced(p_graph, p_ctx);', 'return total_overload(p_graph, p_ctx) == 0;')
m('C31', 0, ME, """  return std::all_of(p_graph.blocks().begin(), p_graph.blocks().end(), [&](const BlockID b) {
    return p_graph.block_weight(b) <= p_ctx.max_block_weight(b);
  });""", """  for (const BlockID b : p_graph.blocks()) {
    if (p_graph.block_weight(b) > p_ctx.max_block_weight(b)) {
      return false;
    }
  }
  return true;""")
m('C31', 1, ME, """  return std::all_of(p_graph.blocks().begin(), p_graph.blocks().end(), [&](const BlockID b) {
    return p_graph.block_weight(b) <= p_ctx.max_block_weight(b);
  });""", """  for (const BlockID b : p_graph.blocks()) {
    if (p_graph.block_weight(b) >= p_ctx.max_block_weight(b)) {
      return false;
    }
  }
  return true;""")
m('C31', 0, ME, """  return std::all_of(p_graph.blocks().begin(), p_graph.blocks().end(), [&](const BlockID b) {
    return p_graph.block_weight(b) <= p_ctx.max_block_weight(b);
  });""", """  return std::none_of(p_graph.blocks().begin(), p_graph.blocks().end(), [&](const BlockID b) {
    const BlockWeight limit = p_ctx.max_block_weight(b);
    return limit < p_graph.block_weight(b);
  });""")
m('C31', 0, ME, """        cut += (p_graph.block(u) != p_graph.block(v)) ? w : 0;""", """        if (p_graph.block(v) == p_graph.block(u)) {
          return;
        }
        cut += w;""")
m('C31', 0, ME, """      graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
        cut +=""", """      const auto degree = graph.degree(u);
      if (degree == 0) {
        continue;
      }
      graph.adjacent_nodes(u, [&](const NodeID v, const EdgeWeight w) {
        cut +=""")
m('C31', 0, ME, """        cut += (p_graph.block(u) != p_graph.block(v)) ? w : 0;
      });
    }
  });

  std::int64_t cut = cut_ets.combine(std::plus<>{});

  KASSERT(cut % 2 == 0u, "inconsistent cut", assert::always);
  return asserting_cast<assert::always, EdgeWeight>(cut / 2);""", """        if (u < v && p_graph.block(u) != p_graph.block(v)) {
          cut += w;
        }
      });
    }
  });

  return asserting_cast<assert::always, EdgeWeight>(cut_ets.combine(std::plus<>{}));""")
m('C31', 1, ME, """        cut += (p_graph.block(u) != p_graph.block(v)) ? w : 0;""", """        if (u < v && p_graph.block(u) != p_graph.block(v)) {
          cut += w;
        }""")
m('C31', 1, ME, """        cut += (p_graph.block(u) != p_graph.block(v)) ? w : 0;""", """        if (w > 1 && p_graph.block(u) != p_graph.block(v)) {
          cut += w;
        }""")
m('C31', 0, ME, """  NodeWeight total_overload = 0;

  for (const BlockID b : p_graph.blocks()) {
    total_overload += std::max<BlockWeight>(0, p_graph.block_weight(b) - p_ctx.max_block_weight(b));
  }
""", """  NodeWeight total_overload = 0;

  for (BlockID b = 0; b < p_graph.k(); ++b) {
    const BlockWeight overload = p_graph.block_weight(b) - p_ctx.max_block_weight(b);
    if (overload > 0) {
      total_overload += overload;
    }
  }
""")
m('C31', 1, ME, """  for (const BlockID b : p_graph.blocks()) {
    total_overload +=""", """  for (BlockID b = 1; b < p_graph.k(); ++b) {
    total_overload +=""")
m('C31', 1, ME, """  for (const BlockID b : p_graph.blocks()) {
    max_imbalance""", """  for (BlockID b = 0; b + 1 < p_graph.k(); ++b) {
    max_imbalance""")
m('C31', 0, ME, """  for (const BlockID b : p_graph.blocks()) {
    max_imbalance = std::max(max_imbalance, p_graph.block_weight(b) / perfect_block_weight - 1.0);
  }
""", """  for (const BlockID b : p_graph.blocks()) {
    const double current = p_graph.block_weight(b) / perfect_block_weight - 1.0;
    if (current > max_imbalance) {
      max_imbalance = current;
    }
  }
""")
m('C31', 1, DME, 'if (u_block != p_graph.block(v)) {', 'if (p_graph.is_owned_node(v) && u_block != p_graph.block(v)) {')
m('C31', 1, DME, 'mpi::allreduce(local_edge_cut(p_graph), MPI_SUM, p_graph.communicator());\n  KASSERT(global_edge_cut % 2 == 0);\n  return global_edge_cut / 2;', 'mpi::allreduce(local_edge_cut(p_graph) / 2, MPI_SUM, p_graph.communicator());\n  return global_edge_cut;')
m('C31', 1, DME, 'mpi::allreduce(local_edge_cut(p_graph), MPI_SUM', 'mpi::allreduce(local_edge_cut(p_graph), MPI_MAX')
m('C31', 1, DME, 'if (p_graph.block_weight(b) > p_ctx.graph->max_block_weight(b)) {\n      ++', 'if (p_graph.block_weight(b) >= p_ctx.graph->max_block_weight(b)) {\n      ++')
m('C31', 1, DME, 'static_cast<double>(global_total_node_weight) / p_graph.k()', 'static_cast<double>(total_local_node_weight) / p_graph.k()')
m('C31', 1, DME, 'return num_imbalanced_blocks(p_graph, p_ctx) == 0;', 'return num_imbalanced_blocks(p_graph, p_ctx) <= 1;')
m('C31', 1, DME, 'distance += 1.0 * diff * diff;', 'distance += 1.0 * diff;')
m('C31', 1, DME, '    if (p_graph.block_weight(b) > p_ctx.graph->max_block_weight(b)) {\n      distance += std::max<double>(0, p_graph.block_weight(b) - p_ctx.graph->max_block_weight(b));\n    }', '    distance += p_graph.block_weight(b) - p_ctx.graph->max_block_weight(b);')
m('C31', 0, DME, '    if (p_graph.block_weight(b) > p_ctx.graph->max_block_weight(b)) {\n      distance += std::max<double>(0, p_graph.block_weight(b) - p_ctx.graph->max_block_weight(b));\n    }', '    distance += std::max<double>(0, p_graph.block_weight(b) - p_ctx.graph->max_block_weight(b));')
m('C31', 1, KA, 'partition[u] = p_graph.block(_graph_ptr->map_original_node(u));', 'partition[_graph_ptr->map_original_node(u)] = p_graph.block(u);')
m('C31', 1, KA, 'if (_graph_ptr->permuted()) {', 'if (!_graph_ptr->permuted()) {')
m('C31', 1, KA, """  if (_graph_ptr->permuted()) {
    tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
      partition[u] = p_graph.block(_graph_ptr->map_original_node(u));
    });
  } else {
    tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
      partition[u] = p_graph.block(u);
    });
  }""", """  tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
    partition[u] = p_graph.block(u);
  });""")
m('C31', 0, KA, """  if (_graph_ptr->permuted()) {
    tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
      partition[u] = p_graph.block(_graph_ptr->map_original_node(u));
    });
  } else {
    tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
      partition[u] = p_graph.block(u);
    });
  }""", """  const bool permuted = _graph_ptr->permuted();
  tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {
    const NodeID v = permuted ? _graph_ptr->map_original_node(u) : u;
    partition[u] = p_graph.block(v);
  });""")
m('C31', 1, KA, 'tbb::parallel_for<NodeID>(0, p_graph.n(), [&](const NodeID u) {\n      partition[u] = p_graph.block(u);', 'tbb::parallel_for<NodeID>(0, _ctx.partition.n, [&](const NodeID u) {\n      partition[u] = p_graph.block(u);')
m('C31', 1, KA, """  // Re-integrate isolated nodes that were cut off during preprocessing
  if (""", """  const EdgeWeight first_cut = metrics::edge_cut(p_graph);
  for (const NodeID u : p_graph.nodes()) {
    partition[u] = p_graph.block(u);
  }
  // Re-integrate isolated nodes that were cut off during preprocessing
  if (first_cut >= 0 && """)
m('C31', 1, KA, 'const bool feasible = metrics::is_feasible(p_graph, ctx.partition);', 'const bool feasible = metrics::imbalance(p_graph) <= 0.03;')
m('C31', 1, KA, 'LOG << "RESULT cut=" << cut << " imbalance=" << imbalance', 'LOG << "RESULT cut=" << imbalance << " imbalance=" << cut')
m('C31', 1, CG, '  _node_weights.unrestrict();\n', '')
m('C31', 1, CG, '_buckets[1 + i] += isolated_nodes;', '_buckets[1 + i] -= isolated_nodes;')
m('C31', 1, CG, '  const NodeID isolated_nodes = n() - nonisolated_nodes;\n  update_total_node_weight();', '  const NodeID isolated_nodes = n() - nonisolated_nodes;')
m('C31', 1, CG, """  if (_number_of_buckets == 0) {
    _number_of_buckets = 1;
  }

  return""", """  return""")
m('C31', 1, PE, 'const NodeID num_nonisolated_nodes = graph.n() - num_isolated_nodes;', 'const NodeID num_nonisolated_nodes = graph.n();')
m('C31', 1, PE, 'tbb::parallel_for<NodeID>(0, num_nonisolated_nodes, [&](const NodeID u) {', 'tbb::parallel_for<NodeID>(0, num_isolated_nodes, [&](const NodeID u) {')
m('C31', 1, DKA, 'metrics::is_feasible(p_graph, ctx.partition) && p_graph.k() == ctx.partition.k;', 'metrics::imbalance(p_graph) <= 0.03 && p_graph.k() == ctx.partition.k;')
m('C31', 1, DKA, 'partition[u] = p_graph.block(graph.map_original_node(u));', 'partition[graph.map_original_node(u)] = p_graph.block(u);')
m('C31', 1, 'kaminpar-common/datastructures/static_array.h', '    _unrestricted_size = _size;\n\n    IF_HEAP', '    IF_HEAP')
m('C31', 1, 'kaminpar-common/datastructures/static_array.h', '        _unrestricted_size(size),\n        _data(data)', '        _data(data)')
m('C31', 0, 'kaminpar-common/datastructures/static_array.h', '    _size = size;\n    _unrestricted_size = _size;', '    _unrestricted_size = size;\n    _size = size;')
m('C22', 1, 'kaminpar-common/random.cc', '      _next_random_bool(0),\n', '')
AL = 'kaminpar-common/parallel/algorithm.h'
for k in (0, 1): m('C30', 1, AL, '      _ans += y._ans;', '      _ans = y._ans;', k)
for k in (0, 1): m('C30', 1, AL, '      _ans = std::max(_ans, y._ans);', '      _ans += y._ans;', k)
m('C30', 1, AL, '      _ans = std::max(_ans, y._ans);', '      (void)y;', 2)
for k in (0, 1): m('C30', 1, AL, '    value_t _ans{};', '    value_t _ans{1};', k)
m('C30', 1, AL, '    body(body &x, tbb::split) : _r{x._r} {}', '    body(body &x, tbb::split) : _r{x._r}, _ans{x._ans} {}', 0)
m('C30', 1, AL, '      auto ans = _ans;\n', '      value_t ans{};\n', 0)
m('C30', 1, AL, '      auto ans = _ans;\n', '      value_t ans{};\n', 1)
m('C30', 1, AL, '      auto ans = _ans;\n', '      value_t ans = 0;\n', 2)
m('C30', 1, AL, '  return initial + b._ans;', '  return b._ans;', 1)
m('C30', 1, AL, 'tbb::parallel_reduce(tbb::blocked_range<size_t>(static_cast<size_t>(0), r.size()), b);', 'tbb::parallel_reduce(tbb::blocked_range<size_t>(static_cast<size_t>(1), r.size()), b);', 1)
m('C30', 1, AL, 'tbb::blocked_range<size_t>(0, size - 1), b', 'tbb::blocked_range<size_t>(0, size - 2), b')
m('C30', 1, AL, '*(begin + i + 1) - *(begin + i)', '*(begin + i) - *(begin + i + 1)')
m('C30', 0, AL, '      auto ans = _ans;\n      auto end = indices.end();\n      for (auto i = indices.begin(); i != end; ++i) {\n        ans += r[i];\n      }\n      _ans = ans;', '      for (auto i = indices.begin(); i < indices.end(); ++i) {\n        _ans += r[i];\n      }')
m('C30', 0, AL, '        ans = std::max<value_t>(ans, r[i]);', '        const value_t v = r[i];\n        ans = std::max<value_t>(v, ans);')
m('C30', 1, AL, '        Value temp = sum;', '        Value temp = Value();')
m('C30', 1, AL, '          temp += *(first + i);\n          if (is_final_scan) {\n            *(result + i) = temp;\n          }', '          if (is_final_scan) {\n            *(result + i) = temp;\n          }\n          temp += *(first + i);')
m('C30', 1, AL, '          if (is_final_scan) {\n            *(result + i) = temp;\n          }', '          *(result + i) = temp;')
m('C30', 1, AL, '        return temp;\n      },', '        return sum;\n      },')
m('C30', 1, AL, '{ return left + right; }', '{ (void)left; return right; }')
m('C30', 0, AL, '{ return left + right; }', '{ return right + left; }')
m('C30', 0, AL, '        Value temp = sum;\n        for (auto i = r.begin(); i < r.end(); ++i) {\n          temp += *(first + i);\n          if (is_final_scan) {\n            *(result + i) = temp;\n          }\n        }\n        return temp;', '        for (auto i = r.begin(); i != r.end(); ++i) {\n          sum += *(first + i);\n          if (is_final_scan) {\n            *(result + i) = sum;\n          }\n        }\n        return sum;')
m('C30', 1, 'kaminpar-common/math.h', '((rank < remainder) ? chunk + 1 : chunk)', '((rank <= remainder) ? chunk + 1 : chunk)')
m('C30', 1, 'kaminpar-common/math.h', 'rank * chunk + std::min<Int>(rank, remainder);', 'rank * chunk;')
m('C30', 1, 'kaminpar-common/math.h', 'std::upper_bound(distribution', 'std::lower_bound(distribution')
m('C30', 1, 'kaminpar-common/parallel/loops.h', 'lambda(from + cpu_from, from + cpu_to, static_cast<int>(cpu));', 'lambda(cpu_from, cpu_to, static_cast<int>(cpu));')
m('C30', 1, 'kaminpar-common/parallel/loops.h', 'offset += buffers[current_buf++].size();', 'offset += buffers[++current_buf].size();')
m('C30', 0, 'kaminpar-common/parallel/loops.h', 'offset += buffers[current_buf++].size();', 'offset += cur_size;\n        ++current_buf;')
m('C30', 1, 'kaminpar-common/parallel/vector_ets.h', 'ans[i] = op(a[i], b[i]);', 'ans[i] = op(a[i], a[i]);')
m('C30', 1, 'kaminpar-common/parallel/vector_ets.h', 'for (std::size_t i = 0; i', 'for (std::size_t i = 1; i')
m('C30', 1, 'kaminpar-common/parallel/aligned_prefix_sum.h', 'for (std::size_t i = from + 1; i < to + 1; ++i)', 'for (std::size_t i = from; i < to + 1; ++i)')
m('C30', 1, 'kaminpar-common/parallel/aligned_prefix_sum.h', 'const auto value = prefix_sums[cpu - 1] + *(begin + from);', 'const auto value = *(begin + from);')
m('C30', 1, 'kaminpar-shm/graphutils/permutator.h', 'parallel::prefix_sum(new_nodes.begin(), new_nodes.end(), new_nodes.begin());', 'parallel::prefix_sum(new_nodes.begin(), new_nodes.end(), new_nodes.begin() + 1);')
m('C30', 0, 'kaminpar-shm/label_propagation.h', 'num_moved_nodes = _num_moved_nodes_ets.combine(std::plus{});', 'num_moved_nodes = _num_moved_nodes_ets.combine([](const auto a, const auto b) { return a + b; });')
# ---- fresh probes, written from the statements
m('C02', 1, 'kaminpar-dist/graphutils/rearrangement.cc', 'rearrange_by == GraphOrdering::COLORING) {\n    graph = graph::rearrange_by_coloring(std::move(graph), ctx);', 'rearrange_by == GraphOrdering::COLORING) {\n    graph = graph::rearrange_by_degree_buckets(std::move(graph));')
m('C02', 1, 'kaminpar-shm/initial_partitioning/initial_refiner.cc', 'case FMStoppingRule::SIMPLE:\n    return std::make_unique<InitialSimple2WayFM>(r_ctx);', 'case FMStoppingRule::SIMPLE:\n    return std::make_unique<InitialAdaptive2WayFM>(r_ctx);')
m('C02', 1, 'kaminpar-shm/coarsening/max_cluster_weights.h', 'case ClusterWeightLimit::ONE:\n    max_cluster_weight = 1.0;', 'case ClusterWeightLimit::ONE:\n    max_cluster_weight = 0.0;')
m('C02', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', 'return perform_local_moves(c);', 'return perform_best_moves(c);')
m('C02', 1, 'kaminpar-dist/refinement/balancer/clusters.cc', 'factory::create_clusterer(ctx, ClusteringAlgorithm::LOCAL_LP),', 'factory::create_clusterer(ctx, ClusteringAlgorithm::GLOBAL_LP),')
m('C02', 1, 'apps/io/shm_io.cc', 'return parhip::csr_read(filename, ordering);', 'return metis::csr_read(filename, ordering == NodeOrdering::IMPLICIT_DEGREE_BUCKETS);')
m('C02', 1, 'apps/KaMinPar.cc', 'output_graph_file_format == io::GraphFileFormat::METIS) {\n      shm::io::metis::write(app.rearranged_graph_filename, permuted_graph);', 'output_graph_file_format == io::GraphFileFormat::METIS) {\n      shm::io::parhip::write(app.rearranged_graph_filename, permuted_graph.concretize<CSRGraph>());')
m('C02', 1, 'kaminpar-shm/kaminpar.cc', '_ctx.edge_ordering == EdgeOrdering::COMPRESSION &&', '_ctx.edge_ordering == EdgeOrdering::NATURAL &&')
m('C02', 1, 'kaminpar-shm/label_propagation.h', '_tie_breaking_strategy == TieBreakingStrategy::UNIFORM;', '_tie_breaking_strategy == TieBreakingStrategy::GEOMETRIC;')
m('C02', 1, 'kaminpar-shm/partitioning/deep/deep_multilevel.cc', 'mode == InitialPartitioningMode::ASYNCHRONOUS_PARALLEL);', 'mode == InitialPartitioningMode::COMMUNITIES);')
m('C02', 1, 'apps/io/shm_io.cc', 'const bool sorted = ordering == NodeOrdering::IMPLICIT_DEGREE_BUCKETS;', 'const bool sorted = ordering == NodeOrdering::EXTERNAL_DEGREE_BUCKETS;')
m('C02', 0, 'kaminpar-dist/graphutils/rearrangement.cc', '  if (ctx.rearrange_by == GraphOrdering::NATURAL) {\n    // nothing to do\n  } else if (ctx', '  if (ctx')
m('C06', 1, 'kaminpar-common/timer.h', '    stop_timer_impl();\n    _tree.current = _tree.current->parent;', '    stop_timer_impl();\n    if (_tree.current->elapsed.count() > 0) {\n      _tree.current = _tree.current->parent;\n    }')
m('C06', 1, 'kaminpar-common/timer.h', '    std::lock_guard<std::mutex> lg{_mutex};\n\n    if (_disabled > 0) {\n      return;\n    }\n', '    std::lock_guard<std::mutex> lg{_mutex};\n')
m('C06', 1, 'kaminpar-common/timer.h', '      // set as current node\n      _tree.current = child;\n', '')
m('C06', 1, 'kaminpar-common/timer.h', '_disabled = std::max(0, _disabled - 1);', '_disabled = 0;')
m('C06', 1, 'kaminpar-shm/kaminpar.cc', '    START_TIMER("Deallocation");\n    partitioner.reset();\n    STOP_TIMER();', '    START_TIMER("Deallocation");\n    if (_ctx.partition.k == 1) {\n      return p_graph;\n    }\n    partitioner.reset();\n    STOP_TIMER();')
m('C06', 1, 'kaminpar-shm/kaminpar.cc', '    SCOPED_TIMER("Re-integrate isolated nodes");\n', '    START_TIMER("Re-integrate isolated nodes");\n')
m('C06', 1, 'kaminpar-shm/coarsening/cluster_coarsener.cc', '  STOP_TIMER();\n  STOP_HEAP_PROFILER();\n\n  START_TIMER("Project partition");', '  STOP_TIMER();\n  if (p_graph_k > 1) {\n    STOP_HEAP_PROFILER();\n  }\n\n  START_TIMER("Project partition");')
m('C06', 1, 'kaminpar-dist/initial_partitioning/kaminpar_initial_partitioner.cc', '  ENABLE_TIMERS();\n', '')
m('C06', 0, 'kaminpar-shm/kaminpar.cc', '    START_TIMER("Deallocation");\n    partitioner.reset();\n    STOP_TIMER();', '    {\n      SCOPED_TIMER("Deallocation");\n      partitioner.reset();\n    }')
m('C02', 1, 'kaminpar-dist/graphutils/rearrangement.cc', '  } else if (ctx.rearrange_by == GraphOrdering::COLORING) {\n    graph = graph::rearrange_by_coloring(std::move(graph), ctx);\n', '')
m('C02', 0, 'kaminpar-shm/kaminpar.cc', '    if (_ctx.edge_ordering == EdgeOrdering::COMPRESSION && !_ctx.compression.enabled) {', '    const bool reorder = _ctx.edge_ordering == EdgeOrdering::COMPRESSION && !_ctx.compression.enabled;\n    if (reorder) {')
m('C02', 0, 'kaminpar-shm/label_propagation.h', 'const bool use_uniform_tie_breaking = _tie_breaking_strategy == TieBreakingStrategy::UNIFORM;', 'const bool use_uniform_tie_breaking = _tie_breaking_strategy != TieBreakingStrategy::GEOMETRIC;')
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', '"--r-jet-coarse-negative-gain-factor", ctx.refinement.jet.coarse_negative_gain_factor', '"--r-jet-coarse-negative-gain-factor", ctx.refinement.jet.dynamic_negative_gain_factor')
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', '"--r-fm-lock-seed-nodes{false},--r-fm-unlock-seed-nodes"', '"--r-fm-lock-seed-nodes,--r-fm-unlock-seed-nodes"')
m('C03', 1, 'apps/KaMinPar.cc', '  CLI11_PARSE(cli, argc, argv);\n', '  CLI11_PARSE(cli, argc, argv);\n  app.epsilon = 0.03;\n')
m('C03', 1, 'apps/KaMinPar.cc', 'KaMinPar partitioner(app.num_threads, ctx);', 'KaMinPar partitioner(app.num_threads, create_default_context());')
m('C03', 1, 'kaminpar-shm/coarsening/clustering/lp_clusterer.cc', 'Base::set_max_degree(_lp_ctx.large_degree_threshold);', 'Base::set_max_degree(_lp_ctx.max_num_neighbors);')
m('C03', 1, 'kaminpar-shm/coarsening/clustering/lp_clusterer.cc', '<= _lp_ctx.two_hop_threshold;', '<= 0.5;')
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', '  create_initial_partitioning_options(app, ctx);\n', '')
m('C03', 1, 'kaminpar-shm/refinement/lp/lp_refiner.cc', 'Base::set_max_num_neighbors(_r_ctx.lp.max_num_neighbors);', 'Base::set_max_num_neighbors(_r_ctx.lp.large_degree_threshold);')
m('C03', 1, 'apps/dKaMinPar.cc', 'CLI11_PARSE(cli, argc, argv);\n', 'CLI11_PARSE(cli, argc, argv);\n  ctx = create_default_context();\n')
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', 'CLI::CheckedTransformer(get_partitioning_modes())', 'CLI::CheckedTransformer(get_initial_partitioning_modes())')
m('C03', 1, 'kaminpar-shm/kaminpar.cc', '_ctx(std::move(ctx))', '_ctx(create_default_context())')
m('C03', 1, 'apps/KaMinPar.cc', 'partitioner.set_max_timer_depth(app.max_timer_depth);', 'partitioner.set_max_timer_depth(app.heap_profiler_max_depth);')
m('C03', 1, 'kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc', 'coarsening.local_lp', 'coarsening.global_lp')
m('C03', 1, 'kaminpar-shm/refinement/jet/jet_refiner.cc', '_ctx(ctx)', '_ctx(create_default_context())')
m('C03', 0, 'apps/KaMinPar.cc', '  CLI11_PARSE(cli, argc, argv);\n', '  CLI11_PARSE(cli, argc, argv);\n  app.verbosity = std::min(app.verbosity, 2);\n')
AA='kaminpar-mpi/alltoall.h'
m('C16', 1, AA, '      common_recv_buffer.data(),\n      recv_counts.data(),\n      recv_displs.data(),', '      common_recv_buffer.data(),\n      send_counts.data(),\n      send_displs.data(),')
m('C16', 1, AA, 'parallel::prefix_sum(recv_counts.begin(), recv_counts.end(), recv_displs.begin() + 1);', 'parallel::prefix_sum(send_counts.begin(), send_counts.end(), recv_displs.begin() + 1);')
m('C16', 1, AA, 'mpi::isend(send_buffers[pe], pe, 0, requests[next_req_index++], comm);', 'mpi::isend(send_buffers[pe], pe, 1, requests[next_req_index++], comm);')
m('C16', 1, AA, 'mpi::isend(send_buffers[pe], pe, 0, requests[next_req_index++], comm);', 'mpi::isend(send_buffers[pe], pe, 0, requests[next_req_index], comm);')
m('C16', 1, AA, '  if (size > 1) {\n    mpi::waitall(requests);', '  if (size > 2) {\n    mpi::waitall(requests);')
m('C16', 1, RP, '  MPI_Bcast(\n      partition.data(),\n      static_cast<int>(dist_graph.global_n()),\n      mpi::type::get<shm::BlockID>(),\n      global.rank,', '  MPI_Bcast(\n      partition.data(),\n      static_cast<int>(dist_graph.global_n()),\n      mpi::type::get<shm::BlockID>(),\n      local.rank,')
m('C16', 1, RP, 'MPI_Bcast(&secondary_num_edges, 1, mpi::type::get<EdgeID>(), secondary_root, secondary_comm);', 'MPI_Bcast(&secondary_num_edges, 1, mpi::type::get<EdgeID>(), secondary_rank, secondary_comm);')
m('C16', 1, RP, 'MPI_Bcast(&secondary_num_edges, 1, mpi::type::get<EdgeID>(), secondary_root, secondary_comm);', 'MPI_Bcast(&secondary_num_edges, 1, mpi::type::get<EdgeID>(), 0, secondary_comm);')
m('C16', 1, 'kaminpar-dist/refinement/balancer/reductions.h', 'compactified.data(),\n        nullptr,\n        compactified.size(),\n        mpi::type::get<GlobalNodeWeight>(),\n        MPI_SUM,\n        0,', 'compactified.data(),\n        nullptr,\n        compactified.size(),\n        mpi::type::get<GlobalNodeWeight>(),\n        MPI_SUM,\n        rank,')
m('C16', 1, 'kaminpar-dist/refinement/balancer/reductions.h', 'compactified.data(),\n        nullptr,\n        compactified.size(),\n        mpi::type::get<GlobalNodeWeight>(),\n        MPI_SUM,\n        0,', 'compactified.data(),\n        nullptr,\n        compactified.size(),\n        mpi::type::get<GlobalNodeWeight>(),\n        MPI_MAX,\n        0,')
m('C16', 1, 'kaminpar-dist/refinement/balancer/reductions.h', 'compactified.data(),\n        nullptr,\n        compactified.size(),\n        mpi::type::get<GlobalNodeWeight>(),', 'compactified.data(),\n        nullptr,\n        compactified.size() * sizeof(GlobalNodeWeight),\n        mpi::type::get<GlobalNodeWeight>(),')
m('C16', 1, GC, '      recvbuf.data(),\n      recvcounts.data(),\n      rdispls.data(),\n      mpi::type::get<Element>(),', '      recvbuf.data(),\n      recvcounts.data(),\n      sdispls.data(),\n      mpi::type::get<Element>(),')
m('C16', 1, GC, 'std::exclusive_scan(recvcounts.begin(), recvcounts.end(), rdispls.begin(), 0);\n\n  RECORD("recvbuf")', 'std::exclusive_scan(sendcounts.begin(), sendcounts.end(), rdispls.begin(), 0);\n\n  RECORD("recvbuf")')
m('C16', 1, GC, 'recvbuf(rdispls.back() + recvcounts.back());\n  MPI_Alltoallv', 'recvbuf(sdispls.back() + sendcounts.back());\n  MPI_Alltoallv')
m('C16', 1, GC, '      my_nonlocal_to_gcnode.data(),\n      local_nodes.sendcounts.data(),\n      local_nodes.sdispls.data(),', '      my_nonlocal_to_gcnode.data(),\n      local_nodes.recvcounts.data(),\n      local_nodes.rdispls.data(),')
m('C16', 1, RP, '      counts[rank],\n      mpi::type::get<BlockID>(),\n      shm_partition.data(),\n      counts.data(),\n      displs.data(),', '      counts[rank],\n      mpi::type::get<BlockID>(),\n      shm_partition.data(),\n      displs.data(),\n      counts.data(),')
m('C16', 1, RP, '      scounts.data(),\n      sdispls.data(),\n      mpi::type::get<BlockID>(),\n      local_partition.data(),\n      rcount,\n      mpi::type::get<BlockID>(),\n      root,', '      scounts.data(),\n      sdispls.data(),\n      mpi::type::get<BlockID>(),\n      local_partition.data(),\n      rcount,\n      mpi::type::get<BlockID>(),\n      rank,')
m('C16', 1, RP, 'asserting_cast<int>(graph.n()),\n      nodes.data(),', 'asserting_cast<int>(graph.m()),\n      nodes.data(),')
m('C16', 1, RP, '        edge_weights.data(),\n        edges_counts.data(),\n        edges_displs.data(),\n        primary_comm', '        edge_weights.data(),\n        nodes_counts.data(),\n        nodes_displs.data(),\n        primary_comm')
m('C16', 1, RP, '        edge_weights.data(),\n        edges_counts.data(),\n        edges_displs.data(),\n        primary_comm', '        edge_weights.data(),\n        edges_counts.data(),\n        nodes_displs.data(),\n        primary_comm')
m('C16', 1, 'kaminpar-mpi/sparse_allreduce.h', 'MPI_Recv(recvbuf.data(), recv_size, mpi_type, neighbor, 0,', 'MPI_Recv(recvbuf.data(), recv_size, mpi_type, neighbor, 1,')
m('C16', 1, 'kaminpar-dist/datastructures/distributed_partitioned_graph.cc', 'counts[pe] = displs[pe + 1] - displs[pe];', 'counts[pe] = displs[pe + 1];')
m('C16', 1, 'kaminpar-mpi/binary_reduction_tree.h', 'mpi::send(sendbuf.data(), sendbuf.size(), to, 0, comm);', 'mpi::send(sendbuf.data(), sendbuf.size(), to, 1, comm);')
m('C16', 1, 'kaminpar-mpi/wrapper.h', 'sendbuf, sendcount, type::get<Ts>(), recvbuf, recvcount, type::get<Tr>(), comm\n  );\n}\n\ntemplate <typename Ts, typename Tr>\ninline int alltoallv', 'sendbuf, sendcount, type::get<Ts>(), recvbuf, sendcount, type::get<Ts>(), comm\n  );\n}\n\ntemplate <typename Ts, typename Tr>\ninline int alltoallv')
m('C16', 0, AA, 'parallel::prefix_sum(recv_counts.begin(), recv_counts.end(), recv_displs.begin() + 1);', 'for (PEID pe = 0; pe < size; ++pe) {\n    recv_displs[pe + 1] = recv_displs[pe] + recv_counts[pe];\n  }')
m('C16', 0, AA, 'mpi::isend(send_buffers[pe], pe, 0, requests[next_req_index++], comm);', 'MPI_Request &request = requests[next_req_index];\n      ++next_req_index;\n      mpi::isend(send_buffers[pe], pe, 0, request, comm);')
m('C16', 0, AA, '  if (size > 1) {\n    mpi::waitall(requests);\n  }', '  if (!requests.empty()) {\n    mpi::waitall(requests);\n  }')
m('C16', 0, AA, '  if (size > 1) {\n    mpi::waitall(requests);\n  }', '  for (MPI_Request &request : requests) {\n    MPI_Wait(&request, MPI_STATUS_IGNORE);\n  }')
m('C16', 0, RP, 'asserting_cast<int>(graph.n()),\n      nodes.data(),', 'nodes_recvcounts[mpi::get_comm_rank(comm)],\n      nodes.data(),')
m('C16', 0, RP, 'RECORD("edges") StaticArray<shm::NodeID> edges(graph.global_m());', 'RECORD("edges") StaticArray<shm::NodeID> edges(graph.edge_distribution().back());')
m('C16', 0, GC, 'std::copy(num_elements_for_pe.begin(), num_elements_for_pe.end(), sendcounts.begin());\n', 'for (PEID pe = 0; pe < size; ++pe) {\n    sendcounts[pe] = num_elements_for_pe[pe];\n  }\n')
m('C16', 0, 'kaminpar-dist/refinement/balancer/reductions.h', '  if (rank == 0) {\n    MPI_Reduce(', '  constexpr PEID kRoot = 0;\n  if (rank == kRoot) {\n    MPI_Reduce(')
m('C16', 0, RP, '  MPI_Scatterv(\n      (rank == root', '  const PEID scatter_root = root;\n  MPI_Scatterv(\n      (rank == scatter_root')
GBX='kaminpar-shm/refinement/balancer/greedy_balancer.cc'
FMX='kaminpar-shm/refinement/fm/fm_refiner.cc'
m('C05', 1, GBX, '    return new_overload == 0;', '    return initial_cut >= 0 && new_overload == 0 && initial_cut != 0;')
m('C05', 1, GBX, '    _stats.reset();\n\n    const', '    IFSTATS(_marker.reset());\n    const')
m('C05', 1, GBX, '          bool moved_node = false;\n', '          bool moved_node = IFSTATS(_stats.num_pq_reinserts > 0);\n')
m('C05', 1, GBX, 'const BlockWeight delta = perform_round();', 'const BlockWeight delta = perform_round();\n    if (_stats.num_pq_reinserts > 5) {\n      return false;\n    }')
m('C05', 1, GBX, '        KASSERT(_marker.get(u));\n', '        KASSERT(_marker.get(u) && (_marker.set(u + 1), true));\n')
m('C05', 1, GBX, '    IFSTATS(_stats.final_cut = metrics::edge_cut(*_p_graph, *_graph));', '    IF_STATS {\n      _stats.final_cut = metrics::edge_cut(*_p_graph, *_graph);\n      if (_stats.final_cut == 0) {\n        return 0;\n      }\n    }')
m('C05', 1, 'kaminpar-dist/distributed_label_propagation.h', '      map.clear();\n      return std::make_pair(state.best_cluster, actual_gain);', '      map.clear();\n      return std::make_pair(actual_gain > 0 ? state.best_cluster : state.initial_cluster, actual_gain);')
m('C05', 1, 'kaminpar-dist/refinement/jet/jet_refiner.cc', '        ++cur_fruitless_iteration;\n', '        if (before_rebalance_cut >= final_cut) {\n          ++cur_fruitless_iteration;\n        }\n')
m('C05', 1, 'kaminpar-shm/refinement/gains/sparse_gain_cache.h', '        [[maybe_unused]] bool was_inserted = table.increase_by(block_to, weight);\n', '        [[maybe_unused]] bool was_inserted = IFSTATS(table.increase_by(block_to, weight));\n')
m('C05', 1, 'kaminpar-common/datastructures/rating_map.h', '    if (_selected_map == MapType::LARGE && _large_map.capacity() < _max_size) {', '    if (_selected_map == MapType::LARGE && (_large_map_counter <= 1 || _large_map.capacity() < _max_size)) {')
m('C05', 1, FMX, '      DBG << "Starting FM iteration " << iteration << " with " << _shared->border_nodes.size()', '      DBG << "Starting FM iteration " << iteration++ << " with " << _shared->border_nodes.size()')
m('C05', 1, 'kaminpar-shm/initial_partitioning/initial_ggg_bipartitioner.cc', '      KASSERT(_queue.peek_key() == compute_gain(u), "invalid gain in queue", assert::heavy);\n      _queue.pop();', '      KASSERT((_queue.pop(), true), "invalid gain in queue", assert::heavy);')
m('C05', 1, 'kaminpar-shm/label_propagation.h', '          KASSERT(could_move_u_to_rep);', '          KASSERT(static_cast<Derived *>(this)->move_cluster_weight(u, rep, 0, 0) || could_move_u_to_rep);')
m('C05', 1, 'kaminpar-dist/refinement/balancer/cluster_balancer.cc', '    IFSTATS(++_stats.num_rounds);\n', '    IFSTATS(_stats.num_rounds += round++);\n')
m('C05', 1, FMX, "      IF_STATSC(_fm_ctx.dbg_compute_batch_stats) {\n        localized_refiner->enable_move_recording();", "      IF_STATSC(_fm_ctx.dbg_compute_batch_stats) {\n        _shared->abort = 0;\n        localized_refiner->enable_move_recording();")
m('C05', 0, GBX, '    IFSTATS(_stats.print());', '    if constexpr (kStatistics) {\n      _stats.print();\n    }')
m('C05', 0, GBX, '    _stats.reset();\n\n    const', '    IFSTATS(_stats.reset());\n\n    const')
m('C05', 0, GBX, '            IFSTATS(_stats.num_successful_random_moves += moved_node);\n            IFSTATS(_stats.num_unsuccessful_random_moves += (1 - moved_node));', '            IF_STATS {\n              if (moved_node) {\n                ++_stats.num_successful_random_moves;\n              } else {\n                ++_stats.num_unsuccessful_random_moves;\n              }\n            }')
m('C29', 1, 'kaminpar-dist/algorithms/independent_set.cc', '          compute_score(generator_ets.local(), p_graph.local_to_global_node(v), seed);', '          compute_score(generator_ets.local(), p_graph.local_to_global_node(v), seed + tbb::this_task_arena::current_thread_index());')
m('C29', 1, GBX, 'const std::size_t i = Random::instance().random_index(0, n);', 'const std::size_t i = reinterpret_cast<std::uintptr_t>(&feasible_target_blocks) / 64 % n;')
m('C29', 1, GBX, 'const std::size_t i = Random::instance().random_index(0, n);', 'static std::mt19937 generator;\n      const std::size_t i = generator() % n;')
m('C29', 1, GBX, 'const std::size_t i = Random::instance().random_index(0, n);', 'const std::size_t i = std::rand() % n;')
m('C29', 1, GBX, 'const std::size_t i = Random::instance().random_index(0, n);', 'const std::size_t i = std::chrono::steady_clock::now().time_since_epoch().count() % n;')
m('C29', 1, 'kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc', 'mt_kahypar_set_seed(Random::get_seed());', 'mt_kahypar_set_seed(0);')
m('C29', 1, 'kaminpar-dist/initial_partitioning/mtkahypar_initial_partitioner.cc', 'mt_kahypar_set_seed(Random::get_seed());', 'mt_kahypar_set_seed(std::time(nullptr));')
m('C29', 1, 'kaminpar-shm/initial_partitioning/initial_random_bipartitioner.h', 'Random &_rand = Random::instance();', 'Random _own{};\n  Random &_rand = _own;')
m('C29', 1, 'kaminpar-dist/dkaminpar.cc', 'Random::reseed(seed);', 'Random::reseed(seed + mpi::get_comm_rank(MPI_COMM_WORLD) * 0 + ::getpid());')
m('C29', 1, 'kaminpar-common/random.cc', '  std::uniform_int_distribution<int> _dist(0, 1);\n  for (std::size_t i = 0; i < kPrecomputedBools; ++i) {\n    _random_bools[i] = static_cast<bool>(_dist(_generator));', '  static std::uniform_int_distribution<int> _dist(0, 1);\n  static std::mt19937 generator(_seed);\n  for (std::size_t i = 0; i < kPrecomputedBools; ++i) {\n    _random_bools[i] = static_cast<bool>(_dist(generator));')
m('C29', 1, 'kaminpar-common/random.cc', '  for (std::size_t i = 0; i < kPrecomputedBools; ++i) {', '  for (std::size_t i = _next_random_bool; i < kPrecomputedBools / 2; ++i) {')
m('C29', 1, 'kaminpar-common/random.h', 'return _random_bools[_next_random_bool++ % kPrecomputedBools];', 'static std::atomic<std::size_t> next = 0;\n    return _random_bools[next++ % kPrecomputedBools];')
m('C29', 1, 'apps/KaMinPar.cc', '  KaMinPar::reseed(app.seed);\n', '  KaMinPar::reseed(app.seed == 0 ? static_cast<int>(std::time(nullptr)) : app.seed);\n')
m('C29', 0, GBX, 'const std::size_t i = Random::instance().random_index(0, n);', 'Random &rand = Random::instance();\n      const std::size_t i = rand.random_index(0, n);')
m('C05', 1, 'kaminpar-dist/distributed_label_propagation.h', '    if (derived_cluster(u) != new_cluster) {\n      if (derived_move', '    if (derived_cluster(u) != new_cluster && new_gain >= 0) {\n      if (derived_move')
m('C05', 1, 'kaminpar-shm/label_propagation.h', '    if (derived_cluster(u) != new_cluster) {\n      const bool successful_weight_move', '    if (derived_cluster(u) != new_cluster && gain >= 0) {\n      const bool successful_weight_move')
m('C05', 1, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', '    return new_overload == 0;\n', '    const EdgeWeight cut_change = metrics::edge_cut(*_p_graph, *_graph) - initial_cut;\n    return new_overload == 0 && cut_change < 1000000;\n')
m('C05', 0, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', '    DBG << "-> Balancer: cut=" << C(initial_cut,', '    const EdgeWeight before = initial_cut;\n    DBG << "-> Balancer: cut=" << C(before,')
m('C05', 0, 'kaminpar-dist/distributed_label_propagation.h', '    const auto [new_cluster, new_gain] =\n        find_best_cluster(u, u_weight, u_cluster, local_rand, local_rating_map);\n', '    const auto result = find_best_cluster(u, u_weight, u_cluster, local_rand, local_rating_map);\n    const ClusterID new_cluster = result.first;\n    [[maybe_unused]] const EdgeWeight new_gain = result.second;\n')
m('C29', 0, 'kaminpar-common/datastructures/concurrent_fast_reset_array.h', '    return _used_entries_tls[tbb::this_task_arena::current_thread_index()];', '    const auto index = tbb::this_task_arena::current_thread_index();\n    return _used_entries_tls[index];')
m('C29', 0, 'kaminpar-common/random.cc', '  for (std::size_t i = 0; i < kPrecomputedBools; ++i) {\n    _random_bools[i] = static_cast<bool>(_dist(_generator));\n  }', '  for (auto &value : _random_bools) {\n    value = static_cast<bool>(_dist(_generator));\n  }')
m('C29', 0, 'kaminpar-common/random.cc', '  for (std::size_t i = 0; i < kPrecomputedBools; ++i) {', '  for (std::size_t i = 0; i != _random_bools.size(); ++i) {')
m('C29', 1, 'kaminpar-dist/refinement/adapters/mtkahypar_refiner.cc', '    mt_kahypar_set_seed(Random::get_seed());\n', '')
m('C29', 1, 'kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc', '  mt_kahypar_set_seed(Random::get_seed());\n', '  if (_ctx.parallel.num_threads > 1) {\n    mt_kahypar_set_seed(Random::get_seed());\n  }\n')
m('C29', 0, 'kaminpar-shm/refinement/adapters/mtkahypar_refiner.cc', '  mt_kahypar_set_seed(Random::get_seed());\n', '  const int seed = Random::get_seed();\n  mt_kahypar_set_seed(seed);\n')
m('C15', 1, 'kaminpar-mpi/sparse_alltoall.h', '  const std::size_t global_num_elements = allreduce(local_num_elements, MPI_SUM, comm);', '  const std::size_t global_num_elements = local_num_elements * get_comm_size(comm);')
m('C15', 1, 'kaminpar-mpi/sparse_alltoall.h', '  auto recv = sparse_alltoall_get<T, NoinitVector<T>>(split_sendbuf, comm);', '  if (std::all_of(sendcounts, sendcounts + size, [](const int c) { return c == 0; })) {\n    return;\n  }\n  auto recv = sparse_alltoall_get<T, NoinitVector<T>>(split_sendbuf, comm);')
m('C15', 0, 'kaminpar-mpi/sparse_alltoall.h', '  return global_num_elements / size / size <= SPARSE_GRID_ALLTOALL_THRESHOLD;', '  const std::size_t average = global_num_elements / size / size;\n  return average <= SPARSE_GRID_ALLTOALL_THRESHOLD;')

m('C18', 1, 'kaminpar-shm/refinement/gains/dense_gain_cache.h', '__atomic_fetch_add(&_gain_cache[index(v, block_to)], weight, __ATOMIC_RELAXED)', '_gain_cache[index(v, block_to)] += weight', 0)
m('C18', 1, 'kaminpar-shm/refinement/gains/hashing_gain_cache.h', '__atomic_fetch_sub(&_gain_cache[index_full_table(v, block_from)], weight, __ATOMIC_RELAXED)', '_gain_cache[index_full_table(v, block_from)] -= weight', 0)
m('C18', 1, 'kaminpar-shm/refinement/gains/sparse_gain_cache.h', '__atomic_fetch_sub(&_gain_cache[index_sparse(v, block_from)], weight, __ATOMIC_RELAXED)', '_gain_cache[index_sparse(v, block_from)] -= weight', 0)
m('C18', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '__atomic_fetch_add(&edge_collector[c_v], w, __ATOMIC_RELAXED)', '((edge_collector[c_v] += w) - (w))', 0)
m('C18', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '__atomic_fetch_add(&cur_edge, local_neighbors.size(), __ATOMIC_RELAXED)', '((cur_edge += local_neighbors.size()) - (local_neighbors.size()))', 0)
m('C18', 1, 'kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc', '__atomic_sub_fetch(&buckets_index[mapping[u]], 1, __ATOMIC_RELAXED)', '((buckets_index[mapping[u]] -= 1))', 0)
m('C18', 1, 'kaminpar-shm/label_propagation.h', '__atomic_fetch_add(&map[cluster], rating, __ATOMIC_RELAXED)', '((map[cluster] += rating) - (rating))', 0)
m('C18', 1, 'kaminpar-shm/label_propagation.h', '__atomic_fetch_sub(&_cluster_weights[old_cluster], delta, __ATOMIC_RELAXED)', '_cluster_weights[old_cluster] -= delta', 0)
m('C18', 1, 'kaminpar-shm/graphutils/subgraph_extractor.cc', '__atomic_fetch_add(&block_node_index[b], 1, __ATOMIC_RELAXED)', '((block_node_index[b] += 1) - (1))', 0)
m('C18', 1, 'kaminpar-shm/graphutils/subgraph_extractor.cc', '__atomic_fetch_add(&bucket_index[b], 1, __ATOMIC_RELAXED)', '((bucket_index[b] += 1) - (1))', 0)
m('C18', 1, 'kaminpar-shm/datastructures/partitioned_graph.h', '__atomic_fetch_add(&_block_weights[b], by, __ATOMIC_RELAXED)', '_block_weights[b] += by', 0)
m('C18', 1, 'kaminpar-shm/datastructures/partitioned_graph.h', '__atomic_fetch_sub(&_block_weights[b], by, __ATOMIC_RELAXED)', '_block_weights[b] -= by', 0)
m('C18', 1, 'kaminpar-shm/datastructures/partitioned_graph.h', '__atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED)', '_block_weights[b] += this->node_weight(u)', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/lp_refiner.cc', '__atomic_fetch_add(&block_weight_deltas[to], u_weight, __ATOMIC_RELAXED)', 'block_weight_deltas[to] += u_weight', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/lp_refiner.cc', '__atomic_fetch_sub(&_block_weights[from], delta, __ATOMIC_RELAXED)', '_block_weights[from] -= delta', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '__atomic_sub_fetch(&_color_sizes[c], 1, __ATOMIC_SEQ_CST)', '((_color_sizes[c] -= 1))', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '__atomic_fetch_add(&block_weight_deltas[to], u_weight, __ATOMIC_RELAXED)', 'block_weight_deltas[to] += u_weight', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '__atomic_fetch_sub(&_block_weight_deltas[u_block], u_weight, __ATOMIC_RELAXED)', '_block_weight_deltas[u_block] -= u_weight', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '__atomic_fetch_add(&_block_weight_deltas[best_block], u_weight, __ATOMIC_RELAXED)', '_block_weight_deltas[best_block] += u_weight', 0)
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', '__atomic_fetch_add(&_gain_per_color[c], gain, __ATOMIC_RELAXED)', '_gain_per_color[c] += gain', 0)
m('C18', 1, 'kaminpar-dist/refinement/jet/jet_refiner.cc', '__atomic_fetch_add(&_block_weight_deltas[to], w_u, __ATOMIC_RELAXED)', '_block_weight_deltas[to] += w_u', 0)
m('C18', 1, 'kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc', '__atomic_fetch_add(&_color_sizes[c], 1, __ATOMIC_RELAXED)', '_color_sizes[c] += 1', 0)
m('C18', 1, 'kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc', '__atomic_sub_fetch(&_color_sizes[c], 1, __ATOMIC_SEQ_CST)', '((_color_sizes[c] -= 1))', 0)
m('C18', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', '__atomic_fetch_add(&_local_cluster_weights[new_lcluster], weight_delta, __ATOMIC_RELAXED)', '_local_cluster_weights[new_lcluster] += weight_delta', 0)
m('C18', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', '__atomic_fetch_add(&_local_cluster_weights[lcluster], delta, __ATOMIC_RELAXED)', '_local_cluster_weights[lcluster] += delta', 0)
m('C18', 1, 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', '__atomic_fetch_add(&(tmp_nonlocal_edges[pos].weight), edges[i].weight, __ATOMIC_RELAXED)', '(tmp_nonlocal_edges[pos].weight) += edges[i].weight', 0)
m('C18', 1, 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', '__atomic_fetch_add(&buckets_position_buffer[local_edges[i].u], 1, __ATOMIC_RELAXED)', 'buckets_position_buffer[local_edges[i].u] += 1', 0)
m('C18', 1, 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', '__atomic_fetch_sub(&buckets_position_buffer[lcnode], 1, __ATOMIC_RELAXED)', '((buckets_position_buffer[lcnode] -= 1) + (1))', 0)
m('C18', 1, 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', '__atomic_fetch_sub(&buckets_position_buffer[lcnode], 1, __ATOMIC_RELAXED)', '((buckets_position_buffer[lcnode] -= 1) + (1))', 1)
m('C18', 1, 'kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc', '__atomic_sub_fetch(&buckets_index[mapping[u]], 1, __ATOMIC_RELAXED)', '((buckets_index[mapping[u]] -= 1))', 0)
m('C18', 1, 'kaminpar-dist/distributed_label_propagation.h', '__atomic_fetch_sub(&_cluster_weights[old_cluster], delta, __ATOMIC_RELAXED)', '_cluster_weights[old_cluster] -= delta', 0)
m('C18', 1, 'kaminpar-dist/graphutils/rearrangement.cc', '__atomic_sub_fetch(&color_sizes[c], 1, __ATOMIC_SEQ_CST)', '((color_sizes[c] -= 1))', 0)
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', '__atomic_fetch_add(&_compressed_edges_size, length, __ATOMIC_RELAXED)', '_compressed_edges_size += length', 0)
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', '__atomic_fetch_add(&_num_high_degree_nodes, num_high_degree_nodes, __ATOMIC_RELAXED)', '_num_high_degree_nodes += num_high_degree_nodes', 0)
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', '__atomic_fetch_add(&_num_high_degree_parts, num_high_degree_parts, __ATOMIC_RELAXED)', '_num_high_degree_parts += num_high_degree_parts', 0)
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', '__atomic_fetch_add(&_num_interval_nodes, num_interval_nodes, __ATOMIC_RELAXED)', '_num_interval_nodes += num_interval_nodes', 0)
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', '__atomic_fetch_add(&_num_intervals, num_intervals, __ATOMIC_RELAXED)', '_num_intervals += num_intervals', 0)
m('C18', 1, 'kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc', "  tbb::parallel_for(tbb::blocked_range<NodeID>(0, c_n), [&](const auto &r) {\n    auto &local_collector = collector.local();", "  auto &local_collector = collector.local();\n  tbb::parallel_for(tbb::blocked_range<NodeID>(0, c_n), [&](const auto &r) {")
m('C18', 1, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', "    tbb::parallel_for(static_cast<NodeID>(0), _graph->n(), [&](const NodeID u) {\n      auto &pq = local_pq.local();\n", "    auto &pq = local_pq.local();\n    tbb::parallel_for(static_cast<NodeID>(0), _graph->n(), [&](const NodeID u) {\n")
m('C18', 1, 'kaminpar-shm/refinement/fm/node_tracker.h', "    int free = 0;\n    return __atomic_compare_exchange_n(\n        &_state[u], &free, id, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST\n    );", "    if (owner(u) != UNLOCKED) {\n      return false;\n    }\n    set(u, id);\n    return true;")
m('C18', 1, 'kaminpar-shm/datastructures/partitioned_graph.h', "      if (__atomic_compare_exchange_n(\n              &_block_weights[to],\n              &new_weight,\n              new_weight + delta,\n              false,\n              __ATOMIC_RELAXED,\n              __ATOMIC_RELAXED\n          )) {", "      set_block_weight(to, new_weight + delta);\n      {")
m('C18', 1, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', "      const bool success = __atomic_compare_exchange_n(\n          &_max_degree, &global_max_degree, max_degree, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED\n      );", "      __atomic_store_n(&_max_degree, max_degree, __ATOMIC_RELAXED);\n      const bool success = true;")
m('C18', 1, 'kaminpar-shm/label_propagation.h', 'const NodeID begin = offset.fetch_add(max_node_chunk_size);', 'const NodeID begin = offset;\n              offset = begin + max_node_chunk_size;')
m('C18', 1, 'kaminpar-shm/label_propagation.h', 'const std::size_t local_pos = pos.fetch_add(chunk.size());', 'const std::size_t local_pos = pos;\n          pos = local_pos + chunk.size();')
m('C18', 1, 'kaminpar-shm/label_propagation.h', 'const auto chunk_id = next_chunk.fetch_add(1, std::memory_order_relaxed);', 'const std::size_t chunk_id = next_chunk;\n      next_chunk = chunk_id + 1;')
m('C18', 1, 'kaminpar-shm/refinement/fm/border_nodes.h', 'const NodeID from = _next_border_node.fetch_add(remaining);', 'const NodeID from = _next_border_node;\n      _next_border_node = from + remaining;')
m('C18', 1, 'kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc', 'const std::size_t local_pos = global_pos.fetch_add(markers.size());', 'const std::size_t local_pos = global_pos;\n              global_pos = local_pos + markers.size();')
m('C18', 1, 'kaminpar-shm/refinement/fm/fm_refiner.cc', "      tbb::parallel_for<int>(0, _ctx.parallel.num_threads, [&](int) {\n        auto &expected_gain = expected_gain_ets.local();", "      auto &expected_gain = expected_gain_ets.local();\n      tbb::parallel_for<int>(0, _ctx.parallel.num_threads, [&](int) {")
m('C18', 1, 'kaminpar-dist/refinement/lp/clp_refiner.cc', 'parallel::Atomic<GlobalEdgeWeight> total_gain = 0;', 'GlobalEdgeWeight total_gain = 0;')
m('C18', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', 'tbb::concurrent_vector<NodeID> second_phase_nodes;', 'std::vector<NodeID> second_phase_nodes;')
m('C18', 1, 'kaminpar-dist/datastructures/ghost_node_mapper.h', 'const NodeID ghost_node = _next_ghost_node.fetch_add(1, std::memory_order_relaxed);', 'const NodeID ghost_node = _next_ghost_node;\n      _next_ghost_node = ghost_node + 1;')
m('C18', 1, 'kaminpar-dist/algorithms/independent_set.cc', 'tbb::concurrent_vector<NodeID> seed_nodes;', 'std::vector<NodeID> seed_nodes;')
m('C18', 1, 'kaminpar-dist/refinement/lp/lp_stats.h', 'std::atomic<GlobalEdgeWeight> expected_gain = 0;', 'GlobalEdgeWeight expected_gain = 0;')
# C18: harmless forms of updates
m('C18', 0, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', "              if (!_marker.get(v) && _p_graph->block(v) == from) {\n                add_to_pq(from, v);\n                _marker.set(v);\n              }", "              const BlockID b_v = _p_graph->block(v);\n              if (b_v == from && !_marker.get(v)) {\n                add_to_pq(from, v);\n                _marker.set(v);\n              }")
m('C18', 0, 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', "    while (max_degree > global_max_degree) {\n      const bool success = __atomic_compare_exchange_n(\n          &_max_degree, &global_max_degree, max_degree, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED\n      );\n\n      if (success) {\n        break;\n      }\n    }", "    while (max_degree > global_max_degree &&\n           !__atomic_compare_exchange_n(\n               &_max_degree, &global_max_degree, max_degree, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED\n           )) {}")
m('C18', 0, 'kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc', '__atomic_store_n(&leader_mapping[clustering[u]], 1, __ATOMIC_RELAXED);', 'if (__atomic_load_n(&leader_mapping[clustering[u]], __ATOMIC_RELAXED) == 0) { __atomic_store_n(&leader_mapping[clustering[u]], 1, __ATOMIC_RELAXED); }')
m('C18', 0, 'kaminpar-shm/label_propagation.h', 'const NodeID begin = offset.fetch_add(max_node_chunk_size);', 'const NodeID chunk_size = max_node_chunk_size;\n              const NodeID begin = offset.fetch_add(chunk_size);')
m('C18', 0, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', "              if (!_marker.get(v) && _p_graph->block(v) == from) {\n                add_to_pq(from, v);\n                _marker.set(v);\n              }", "              if (_marker.get(v) || _p_graph->block(v) != from) {\n                return;\n              }\n              add_to_pq(from, v);\n              _marker.set(v);")
m('C18', 1, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', "if (!_marker.get(v) && _p_graph->block(v) == from) {", "if (!_marker.get(v)) {")

m('C22', 1, 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc', '\n        NodeWeight c_u_weight = 0;\n', '\n        NodeWeight c_u_weight;\n', 0)
m('C22', 1, 'kaminpar-dist/refinement/balancer/weight_buckets.h', '\n    BlockID cb = 0;\n', '\n    BlockID cb;\n', 0)
m('C22', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '\n        EdgeID upper_bound_degree = 0;\n', '\n        EdgeID upper_bound_degree;\n', 0)
m('C22', 1, 'kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc', '\n    std::size_t num_markers = 0;\n', '\n    std::size_t num_markers;\n', 0)
m('C22', 1, 'kaminpar-shm/initial_partitioning/initial_coarsener.cc', '\n    NodeID counter = 0;\n', '\n    NodeID counter;\n', 0)
m('C22', 1, 'kaminpar-dist/distributed_label_propagation.h', '\n    NodeID position = 0;\n', '\n    NodeID position;\n', 0)
m('C22', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '\n      NodeWeight c_u_weight = 0;\n', '\n      NodeWeight c_u_weight;\n', 1)
m('C22', 1, 'kaminpar-shm/refinement/gains/sparse_gain_cache.h', '\n    std::size_t gc_size = 0;\n', '\n    std::size_t gc_size;\n', 0)
m('C22', 1, 'kaminpar-shm/partitioning/helper.cc', '\n    NodeID node = 0;\n', '\n    NodeID node;\n', 0)
m('C22', 1, 'kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc', '\n      EdgeID upper_bound_degree = 0;\n', '\n      EdgeID upper_bound_degree;\n', 0)
m('C22', 1, 'kaminpar-common/datastructures/compact_static_array.h', '\n        _size(0),', '', 0)
m('C22', 1, 'kaminpar-shm/partitioning/deep/deep_multilevel.h', '\n  NodeID _subgraph_memory_n_weights = 0;\n', '\n  NodeID _subgraph_memory_n_weights;\n', 0)
m('C06', 1, 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', '\n    START_TIMER("Thread-local");\n', '\n', 0)
m('C06', 1, 'kaminpar-dist/partitioning/deep_multilevel.cc', '\n  STOP_HEAP_PROFILER();\n', '\n', 2)
m('C06', 1, 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc', '\n    STOP_TIMER();\n', '\n', 0)
m('C06', 1, 'kaminpar-dist/refinement/balancer/cluster_balancer.cc', '\n  STOP_TIMER();\n', '\n', 3)
m('C06', 1, 'kaminpar-shm/refinement/jet/jet_refiner.cc', '\n  STOP_TIMER();\n', '\n', 0)
m('C06', 1, 'kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc', '\n  STOP_TIMER();\n', '\n', 1)
m('C06', 1, 'kaminpar-shm/refinement/jet/jet_refiner.cc', '\n  START_TIMER("Allocation");\n', '\n', 0)
m('C06', 1, 'kaminpar-dist/partitioning/deep_multilevel.cc', '\n        STOP_TIMER();\n', '\n', 0)
m('C06', 1, 'kaminpar-dist/graphutils/bfs_extractor.cc', '\n  START_TIMER("Initial BFS");\n', '\n', 0)
m('C06', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '\n    START_TIMER("First phase");\n', '\n', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', 'num-iterations",\n        ctx.refinement.lp.num_iterations', 'num-iterations",\n        ctx.refinement.lp.large_degree_threshold', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', '--r-jet-num-iterations", ctx.refinement.jet.num_iterations', '--r-jet-num-iterations", ctx.refinement.jet.num_fruitless_iterations', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', 'g("--c-forced-kc-level", ctx.coarsening.clustering.forced_kc_level', 'g("--c-forced-kc-level", ctx.coarsening.clustering.forced_pc_level', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', 'c-cluster-weight-limit", ctx.coarsening.clustering.cluster_weight_limit', 'c-cluster-weight-limit", ctx.coarsening.clustering.cluster_weight_multiplier', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', '-num-neighbors",\n        ctx.refinement.lp.max_num_neighbors', '-num-neighbors",\n        ctx.refinement.lp.impl', 0)
m('C03', 1, 'kaminpar-cli/kaminpar_arguments.cc', 'gree-threshold",\n        ctx.coarsening.clustering.lp.large_degree_threshold', 'gree-threshold",\n        ctx.coarsening.clustering.lp.max_num_neighbors', 0)
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', 'num-iterations",\n        ctx.refinement.colored_lp.num_iterations', 'num-iterations",\n        ctx.refinement.colored_lp.move_execution_strategy', 0)
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', 'olor-blacklist",\n        ctx.coarsening.hem.small_color_blacklist', 'olor-blacklist",\n        ctx.coarsening.hem.only_blacklist_input_level', 0)
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', 'et-fruitless-threshold", ctx.refinement.jet.fruitless_threshold', 'et-fruitless-threshold", ctx.refinement.jet.dynamic_negative_gain_factor', 0)
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', 'al-balancing",\n          ctx.refinement.node_balancer.enable_sequential_balancing', 'al-balancing",\n          ctx.refinement.node_balancer.seq_num_nodes_per_block', 0)
m('C03', 1, 'kaminpar-cli/dkaminpar_arguments.cc', 'ion-increase",\n          ctx.refinement.cluster_balancer.par_rebalance_fraction_increase', 'ion-increase",\n          ctx.refinement.cluster_balancer.cluster_size_strategy', 0)
m('C01', 1, 'kaminpar-shm/context_io.cc', 'return out << "match-threadwise";', 'return out << "match";')
m('C01', 1, 'kaminpar-shm/context_io.cc', '      {"match-threadwise", TwoHopStrategy::MATCH_THREADWISE},\n', '')
m('C01', 1, 'kaminpar-dist/context_io.cc', '{"zero", ClusterSizeStrategy::ZERO}', '{"zero", ClusterSizeStrategy::ONE}')
m('C01', 1, 'kaminpar-dist/context_io.cc', '  case ClusterStrategy::LP:\n    return out << "lp";\n', '')
m('C01', 1, 'apps/io/shm_io.cc', '{"parhip", GraphFileFormat::PARHIP}', '{"parhip", GraphFileFormat::METIS}')
m('C01', 1, 'kaminpar-dist/context_io.cc', '{"hybrid-node-balancer", RefinementAlgorithm::HYBRID_NODE_BALANCER}', '{"hybrid-node-balancer", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER}')
m('C01', 1, 'kaminpar-dist/context_io.cc', '{"clp", RefinementAlgorithm::COLORED_LP_REFINER}', '{"lp", RefinementAlgorithm::COLORED_LP_REFINER}')
m('C01', 1, 'kaminpar-dist/context_io.cc', '{"hybrid-node-balancer", RefinementAlgorithm::HYBRID_NODE_BALANCER}', '{"hybrid-node-balancer", RefinementAlgorithm::HYBRID_CLUSTER_BALANCER}', 1)
m('C01', 0, 'kaminpar-shm/context_io.cc', 'return out << "match-threadwise";', 'out << "match-threadwise";\n    return out;')
m('C01', 0, 'kaminpar-dist/context_io.cc', '{"clp", RefinementAlgorithm::COLORED_LP_REFINER},', '{"clp", RefinementAlgorithm::COLORED_LP_REFINER},\n      {"color-lp", RefinementAlgorithm::COLORED_LP_REFINER},')

m('C22', 1, 'apps/KaMinPar.cc', '  int num_threads = 1;', '  int num_threads;')
m('C22', 1, 'apps/KaMinPar.cc', '  bool validate = false;', '  bool validate;')
m('C22', 1, 'apps/dKaMinPar.cc', '  int repetitions = 0;', '  int repetitions;')
m('C22', 1, 'apps/dKaMinPar.cc', '  int io_skagen_chunks_per_pe = 1;', '  int io_skagen_chunks_per_pe;')
m('C22', 1, 'apps/dKaMinPar.cc', '  bool check_input_graph = false;', '  bool check_input_graph;')
m('C22', 1, 'apps/tools/shm_graph_compression_tool.cc', '  int num_threads = 1;', '  int num_threads;')
m('C22', 1, 'apps/tools/shm_connected_components_tool.cc', '  bool compress = false;', '  bool compress;')
m('C22', 1, 'apps/tools/shm_graph_attach_weights_tool.cc', '  int seed = 1;', '  int seed;')
m('C22', 1, 'apps/tools/shm_graph_attach_weights_tool.cc', '  double lambda = 0.0001;', '  double lambda;')
m('C22', 1, 'apps/tools/shm_graph_properties_tool.cc', '  std::size_t total_degree = 0;', '  std::size_t total_degree;')
m('C22', 1, 'apps/tools/shm_connected_components_tool.cc', '    NodeID current_component_order = 0;', '    NodeID current_component_order;')
m('C22', 0, 'apps/benchmarks/dist_coloring_benchmark.cc', '  int num_supersteps = 5;', '  int num_supersteps;')
m('C22', 1, 'apps/benchmarks/dist_coarsening_benchmark.cc', '  int max_levels = 0;', '  int max_levels;')
m('C22', 1, 'apps/benchmarks/shm_compressed_graph_benchmark.cc', '  int num_threads = 1;', '  int num_threads;')
m('C22', 1, 'apps/tools/shm_graph_attach_weights_tool.cc', 'WeightDistribution distribution = WeightDistribution::UNIFORM;', 'WeightDistribution distribution;')
m('C22', 1, 'apps/tools/shm_graph_attach_weights_tool.cc', '  EdgeWeight uniform_min_weight = 1;', '  EdgeWeight uniform_min_weight;')
m('C22', 0, 'apps/KaMinPar.cc', '  ApplicationContext app;', '  ApplicationContext app{};')
m('C22', 0, 'apps/tools/shm_connected_components_tool.cc', '  bool compress = false;', '  bool compress;\n  compress = false;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '  _max_degree = parallel::max_difference(_nodes.begin(), _nodes.end());', '  _max_degree = parallel::max_difference(_nodes.begin(), _nodes.end() - 1);')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '++buckets[degree_bucket(degree(u)) + 1];', '++buckets[degree_bucket(degree(u))];')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _buckets[1] = n();\n', '    _buckets[0] = n();\n')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '_number_of_buckets = std::distance(_buckets.begin(), (last_nonempty_bucket + 1).base());', '_number_of_buckets = std::distance(_buckets.begin(), last_nonempty_bucket.base());')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _buckets[1 + i] -= num_isolated_nodes;', '    _buckets[i] -= num_isolated_nodes;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _buckets[1 + i] += isolated_nodes;', '    _buckets[1 + i] += nonisolated_nodes;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '  const NodeID isolated_nodes = n() - nonisolated_nodes;\n  update_total_node_weight();', '  const NodeID isolated_nodes = n() - nonisolated_nodes;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '  if (_number_of_buckets == 1) {\n    _number_of_buckets = 0;', '  if (_number_of_buckets == 1) {\n    _number_of_buckets = 1;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '  _nodes.restrict(new_n + 1);', '  _nodes.restrict(new_n);')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _total_node_weight = n();\n    _max_node_weight = 1;\n  } else {\n    _total_node_weight =\n        std::accumulate(_node_weights.begin(), _node_weights.end(), static_cast<NodeWeight>(0));\n    _max_node_weight = *std::max_element(_node_weights.begin(), _node_weights.end());\n  }\n}', '    _total_node_weight = n();\n    _max_node_weight = 1;\n  } else {\n    _total_node_weight =\n        std::accumulate(_node_weights.begin(), _node_weights.end(), static_cast<NodeWeight>(0));\n  }\n}')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '      _nodes[u + 1] = graph.degree(u);', '      _nodes[u] = graph.degree(u);')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _total_edge_weight = graph.total_edge_weight();', '    _total_edge_weight = graph.m();')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _max_degree = graph.max_degree();', '    _max_degree = graph.degree(0);')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.cc', '    _total_edge_weight = static_cast<EdgeWeight>(m());', '    _total_edge_weight = static_cast<EdgeWeight>(n());')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.h', 'return is_edge_weighted() ? _edge_weights[e] : 1;', 'return is_edge_weighted() ? _edge_weights[e] : 0;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.h', 'return static_cast<EdgeWeight>(m()) != total_edge_weight();', 'return static_cast<EdgeWeight>(m()) > total_edge_weight();')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.h', '      for (EdgeID edge = from; edge < to; ++edge) {\n        if constexpr (kNonStoppable) {\n          invoke_caller(edge);\n        } else {\n          const bool stop = invoke_caller(edge);\n          if (stop) {\n            return;', '      for (EdgeID edge = from; edge < to; ++edge) {\n        if constexpr (kNonStoppable) {\n          invoke_caller(edge);\n        } else {\n          const bool stop = invoke_caller(edge);\n          if (!stop) {\n            return;')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.h', 'tbb::parallel_for(tbb::blocked_range<EdgeID>(from, to, grainsize)', 'tbb::parallel_for(tbb::blocked_range<EdgeID>(from, from + degree, grainsize)')
m('C07', 1, 'kaminpar-shm/datastructures/csr_graph.h', 'l2(_edges[e], decode_edge_weight(e));', 'l2(_edges[e], decode_edge_weight(e - from));')
m('C07', 1, 'kaminpar-shm/datastructures/compressed_graph.cc', '++buckets[degree_bucket(degree(u)) + 1];', '++buckets[degree_bucket(u) + 1];')
m('C07', 1, 'kaminpar-shm/datastructures/compressed_graph.h', 'return is_node_weighted() ? _node_weights[u] : 1;', 'return _node_weights.empty() ? _node_weights[u] : 1;')
m('C07', 1, 'kaminpar-shm/datastructures/compressed_graph.h', '    return _compressed_neighborhoods.max_degree();', '    return _compressed_neighborhoods.num_nodes();')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.cc', 'begin_node_weights + static_cast<std::size_t>(n());', 'begin_node_weights + static_cast<std::size_t>(total_n());')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.cc', '      mpi::allreduce<GlobalNodeWeight>(_max_node_weight, MPI_MAX, communicator());', '      mpi::allreduce<GlobalNodeWeight>(_max_node_weight, MPI_SUM, communicator());')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.cc', '        auto bucket = degree_bucket(degree(u)) + 1;', '        auto bucket = degree_bucket(degree(u) + 1);')
m('C30', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.cc', '      _edge_cut_to_pe[i] += edge_cut_to_pe[i];', '      _edge_cut_to_pe[i] = edge_cut_to_pe[i];')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.h', '_offset_n + local_u : _ghost_to_global[local_u - n()]', '_offset_n + local_u : _ghost_to_global[local_u]')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.h', '(*_global_to_ghost.find(global_u + 1)).second', '(*_global_to_ghost.find(global_u + 1)).second + n()')
m('C07', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.h', '    _global_m = _edge_distribution.back();', '    _global_m = _edge_distribution[rank + 1];')
m('C07', 1, 'kaminpar-common/degree_buckets.h', '(degree == 0) ? 0 : math::floor_log2(degree) + 1', '(degree <= 1) ? 0 : math::floor_log2(degree) + 1')
m('C07', 1, 'kaminpar-common/degree_buckets.h', '(1u << bucket) >> 1u', '(1u << bucket) - 1u')
m('C07', 0, 'kaminpar-shm/datastructures/csr_graph.cc', '    _buckets[1 + i] += isolated_nodes;', '    _buckets[i + 1] = _buckets[i + 1] + isolated_nodes;')
m('C07', 0, 'kaminpar-shm/datastructures/csr_graph.h', 'const EdgeID to = from + std::min(degree, max_num_neighbors);', 'const EdgeID to = (degree < max_num_neighbors) ? _nodes[u + 1] : from + max_num_neighbors;')
m('C07', 0, 'kaminpar-common/degree_buckets.h', '(degree == 0) ? 0 : math::floor_log2(degree) + 1', 'degree ? 1 + math::floor_log2(degree) : 0')
m('C30', 1, 'kaminpar-shm/datastructures/partitioned_graph.h', '        sum += block_weights[b];', '        sum = block_weights[b];')
m('C30', 1, 'kaminpar-shm/label_propagation.h', '        num_chunks += local_num_chunks;', '        num_chunks = local_num_chunks;')
m('C30', 0, 'kaminpar-shm/label_propagation.h', '        num_chunks += local_num_chunks;', '        num_chunks = num_chunks + local_num_chunks;')
m('C30', 1, 'kaminpar-dist/datastructures/distributed_csr_graph.cc', '    for (std::size_t i = 0; i < comm_vol_to_pe.size(); ++i) {', '    for (std::size_t i = 1; i < comm_vol_to_pe.size(); ++i) {')
m('C30', 1, 'kaminpar-shm/label_propagation.h', '        num_chunks += local_num_chunks;\n        local_num_chunks = 0;', '        num_chunks += local_num_chunks;')
m('C30', 1, 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', '        c_u_weight += local_c_u_weight;\n        local_c_u_weight = 0;', '        c_u_weight += local_c_u_weight;')
m('C30', 1, 'kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc', 'max_edge_weight = std::max(max_edge_weight, edge_weight);', 'max_edge_weight = edge_weight;')
PG = 'kaminpar-shm/datastructures/partitioned_graph.h'
DPGC = 'kaminpar-dist/datastructures/distributed_partitioned_graph.cc'
GLP = 'kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc'
LP = 'kaminpar-shm/label_propagation.h'
IC = 'kaminpar-shm/initial_partitioning/initial_coarsener.cc'
m('C08', 1, PG, '__atomic_fetch_sub(&_block_weights[b], by, __ATOMIC_RELAXED);', '__atomic_fetch_add(&_block_weights[b], by, __ATOMIC_RELAXED);')
m('C08', 1, PG, 'tbb::parallel_for<BlockID>(0, k(), [&]', 'tbb::parallel_for<BlockID>(1, k(), [&]')
m('C08', 1, PG, 'tbb::blocked_range<NodeID>(0, this->n()),', 'tbb::blocked_range<NodeID>(1, this->n()),')
m('C08', 1, PG, '      _block_weights[b] = sum;', '      _block_weights[b] += this->n() > 0 ? sum : 1;')
m('C08', 1, PG, '          __atomic_fetch_add(&_block_weights[b], this->node_weight(u), __ATOMIC_RELAXED);', '          __atomic_fetch_add(&_block_weights[b], 1, __ATOMIC_RELAXED);')
m('C08', 1, PG, '        _block_weights[b] += this->node_weight(u);\n      }\n    }\n  }', '        _block_weights[b] = this->node_weight(u);\n      }\n    }\n  }')
m('C08', 1, PG, '      set_block<false>(u, to);', '      set_block<true>(u, to);')
m('C08', 1, PG, '    init_block_weights_par();\n', '')
m('C08', 1, PG, '    init_block_weights_seq();\n  }', '    if (_partition.empty()) init_block_weights_seq();\n  }')
m('C08', 1, DPGC, 'MPI_SUM,', 'MPI_MAX,')
m('C08', 1, DPGC, 'local_block_weights[block(u)] += node_weight(u);', 'local_block_weights[block(u)] += 1;')
m('C08', 1, DPGC, 'tbb::blocked_range<NodeID>(0, n())', 'tbb::blocked_range<NodeID>(0, total_n())')
m('C08', 1, DPGC, '_block_weights[b] = global_block_weights_nonatomic[b];', '_block_weights[b] = local_block_weights[b];')
m('C08', 1, IC, '    _clustering[best_cluster].weight += u_weight;', '    _clustering[best_cluster].weight += 1;')
m('C08', 1, IC, '    _clustering[u].leader = best_cluster;\n    _clustering[best_cluster].locked', '    _clustering[u].leader = u;\n    _clustering[best_cluster].locked')
m('C08', 1, LP, 'ClusterID new_cluster_id = mapping[u] - 1;\n              new_cluster_weights', 'ClusterID new_cluster_id = u;\n              new_cluster_weights')
m('C08', 1, LP, '              new_cluster_weights[new_cluster_id] = weight;', '              new_cluster_weights[new_cluster_id] = 1;')
m('C08', 1, LP, '    _cluster_weights = std::move(new_cluster_weights);', '')
m('C08', 1, LP, 'derived_init_cluster_weight(cluster, derived_initial_cluster_weight(cluster));', 'derived_init_cluster_weight(cluster, 1);')
m('C08', 1, LP, '    _cluster_weights[cluster] = weight;', '    _cluster_weights[cluster] += weight;')
m('C08', 1, LP, 'tbb::parallel_for<ClusterID>(0, _initial_num_clusters, [&]', 'tbb::parallel_for<ClusterID>(1, _initial_num_clusters, [&]')
m('C08', 1, GLP, 'change_cluster_weight(old_gcluster, -weight, true);', 'change_cluster_weight(old_gcluster, weight, true);')
m('C08', 1, GLP, 'change_cluster_weight(new_gcluster, weight, false);', 'change_cluster_weight(old_gcluster, weight, false);')
m('C08', 1, GLP, 'new_label + 1, weight, [&](auto &lhs, auto &rhs) { return lhs += rhs; }, weight', 'new_label + 1, -weight, [&](auto &lhs, auto &rhs) { return lhs += rhs; }, weight')
m('C08', 1, GLP, 'new_label + 1, weight, [&](auto &lhs, auto &rhs) { return lhs += rhs; }, weight', 'new_label + 1, weight, [&](auto &lhs, auto &rhs) { return lhs = rhs; }, weight')
m('C08', 1, GLP, '        const GlobalNodeID new_label = cluster(u);\n        const NodeWeight weight', '        const GlobalNodeID new_label = _changed_label[u];\n        const NodeWeight weight')
m('C08', 1, GLP, 'change_cluster_weight(cluster, -old_weight + new_weight, true);', 'change_cluster_weight(cluster, new_weight, true);')
m('C08', 1, GLP, '        change_cluster_weight(cluster, delta, false);', '        change_cluster_weight(cluster, -delta, false);')
m('C08', 1, GLP, '__atomic_fetch_add(&_local_cluster_weights[lcluster], delta, __ATOMIC_RELAXED);', '__atomic_fetch_sub(&_local_cluster_weights[lcluster], delta, __ATOMIC_RELAXED);')
m('C08', 1, GLP, '__atomic_store_n(&_local_cluster_weights[lcluster], weight, __ATOMIC_RELAXED);', '__atomic_fetch_add(&_local_cluster_weights[lcluster], weight, __ATOMIC_RELAXED);')
m('C08', 1, 'kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc', 'return _graph->node_weight(cluster);', 'return cluster < _graph->n() ? 1 : 0;')
m('C08', 1, 'kaminpar-shm/coarsening/clustering/lp_clusterer.cc', 'return _graph->node_weight(cluster);', 'return 1;')
m('C08', 1, 'kaminpar-shm/initial_partitioning/initial_coarsener.h', '_clustering[u].weight = node_weights[u];', '_clustering[u].weight = 1;')
m('C08', 0, PG, '        _block_weights[b] += this->node_weight(u);\n      }\n    }\n  }', '        const NodeWeight w = this->node_weight(u);\n        _block_weights[b] = _block_weights[b] + w;\n      }\n    }\n  }')
m('C08', 0, PG, '      BlockWeight sum = 0;\n      for (const StaticArray<BlockWeight> &block_weights : block_weights_ets) {\n        sum += block_weights[b];\n      }\n      _block_weights[b] = sum;', '      BlockWeight total = 0;\n      for (const auto &local : block_weights_ets) {\n        total = total + local[b];\n      }\n      set_block_weight(b, total);')
m('C08', 0, PG, '    init_block_weights_par();\n', '    this->init_block_weights_par();\n')
m('C08', 0, IC, '    _clustering[u].leader = best_cluster;\n    _clustering[best_cluster].locked = true;\n    _clustering[best_cluster].weight += u_weight;', '    auto &cl = _clustering[best_cluster];\n    cl.weight += u_weight;\n    cl.locked = true;\n    _clustering[u].leader = best_cluster;')
m('C08', 0, LP, '            ClusterWeight weight = _cluster_weights[u];\n\n            if (weight != 0) {\n              ClusterID new_cluster_id = mapping[u] - 1;\n              new_cluster_weights[new_cluster_id] = weight;\n            }', '            if (_cluster_weights[u] == 0) continue;\n            new_cluster_weights[mapping[u] - 1] = _cluster_weights[u];')
m('C08', 0, LP, '    _cluster_weights = std::move(new_cluster_weights);', '    std::swap(_cluster_weights, new_cluster_weights);')
m('C08', 0, LP, 'derived_init_cluster_weight(cluster, derived_initial_cluster_weight(cluster));', 'const ClusterWeight initial_weight = derived_initial_cluster_weight(cluster);\n            derived_init_cluster_weight(cluster, initial_weight);')
m('C08', 0, GLP, 'change_cluster_weight(cluster, -old_weight + new_weight, true);', 'const GlobalNodeWeight change = new_weight - old_weight;\n        change_cluster_weight(cluster, change, true);')
m('C08', 0, GLP, '        const NodeWeight weight = _graph->node_weight(u);\n\n        if (!_graph->is_owned_global_node(old_label)) {', '        const NodeWeight weight = _graph->node_weight(u);\n        if (old_label == new_label) {\n          return;\n        }\n\n        if (!_graph->is_owned_global_node(old_label)) {')
m('C08', 0, GLP, '    std::fill(_local_cluster_weights.begin(), _local_cluster_weights.end(), 0);', '    for (auto &weight : _local_cluster_weights) { weight = 0; }')
m('C08', 0, DPGC, '    for (NodeID u = r.begin(); u != r.end(); ++u) {\n      local_block_weights[block(u)] += node_weight(u);\n    }', '    for (NodeID u = r.begin(); u < r.end(); ++u) {\n      const BlockID b = block(u);\n      local_block_weights[b] += node_weight(u);\n    }')
m('C08', 0, DPGC, '  pfor_blocks([&](const BlockID b) { _block_weights[b] = global_block_weights_nonatomic[b]; });', '  for (const BlockID b : blocks()) { set_block_weight(b, global_block_weights_nonatomic[b]); }')
m('C08', 0, DPGC, 'tbb::parallel_for(tbb::blocked_range<NodeID>(0, n()), [&](const auto &r) {', 'const NodeID num_nodes = n();\n  tbb::parallel_for(tbb::blocked_range<NodeID>(0, num_nodes), [&](const auto &r) {')
# C10: storage of the connections (hash map entries, widths, offsets)
CHM = 'kaminpar-common/datastructures/compact_hash_map.h'
m('C10', 1, CHM, '(h_key <= to)', '(h_key < to)')
m('C10', 1, CHM, '(from < h_key) +', '(from <= to) +')
m('C10', 1, CHM, 'decode_value(entry) + value)', 'decode_value(entry) | value)')
m('C10', 1, CHM, 'if (start_value > value) {', 'if (start_value >= value) {')
m('C10', 1, CHM, '(entry << key_bits())) >> key_bits()', '(entry << key_bits())) >> value_bits()')
m('C10', 1, CHM, 'decode_key(entry) != key && hash(pos + 1) != hash(key)', 'decode_key(entry) != key && hash(pos) != hash(key)')
m('C10', 1, CHM, 'for (std::size_t i = 0; i < capacity(); ++i) {\n      const auto entry', 'for (std::size_t i = 1; i < capacity(); ++i) {\n      const auto entry')
m('C10', 1, CHM, 'return decode_key(slot.second) == key ? decode_value(find(key).second) : 0;', 'return decode_value(slot.second);')
m('C10', 1, CHM, '    if constexpr (allow_full_map) {\n      write_pos(hole_pos, 0);\n    }\n', '')
m('C10', 1, CHM, '        hole_pos = cur_pos;\n      }\n', '      }\n      hole_pos = cur_pos;\n')
m('C10', 1, CHM, 'return math::ceil_log2(max_key);\n  }\n\n  CompactHashMap(Type *data, const std::size_t size, const int key_bits)\n      : _data(data),\n        _value_mask(size - 1)', 'return math::ceil_log2(max_key);\n  }\n\n  CompactHashMap(Type *data, const std::size_t size, const int key_bits)\n      : _data(data),\n        _value_mask(size / 2)')
m('C10', 1, CHM, 'return (key << value_bits()) | value;', 'return (key << key_bits()) | value;')
m('C10', 1, CHM, 'std::size_t pos = key - 1;', 'std::size_t pos = key;')
m('C10', 1, CHM, 'cur_entry == 0 || movable(decode_key(cur_entry), cur_pos, hole_pos)', 'cur_entry == 0 || movable(decode_key(cur_entry), hole_pos, cur_pos)')
m('C10', 1, CGC, 'const unsigned width = compute_entry_width(u, deg < _k);', 'const unsigned width = compute_entry_width(u, deg > _k);')
m('C10', 1, CGC, 'const unsigned nbytes = (deg < _k) ? width * deg : width * _k;', 'const unsigned nbytes = (deg < _k) ? width * deg : width;')
m('C10', 1, CGC, '_offsets[u + 1] = _offsets[u] + nbytes;', '_offsets[u + 1] = _offsets[u] + width;')
m('C10', 1, CGC, 'const int width = compute_entry_width(node, true);', 'const int width = compute_entry_width(node, false);')
m('C10', 1, CGC, 'return l(reinterpret_cast<const std::uint32_t *>(\n          reinterpret_cast', 'return l(reinterpret_cast<const std::uint16_t *>(\n          reinterpret_cast')
m('C10', 1, CGC, 'math::floor_log2(max_value) + 1 +', 'math::floor_log2(max_value) +')
m('C10', 1, CGC, '(bits + 7) / 8', 'bits / 8')
m('C10', 1, CGC, 'return math::ceil2(_graph->degree(node)) < _k;', 'return math::ceil2(_graph->degree(node)) <= _k;')
m('C10', 1, CGC, '_bits_for_key = math::ceil_log2(_k);', '_bits_for_key = math::floor_log2(_k);')
m('C10', 1, CGC, '    recompute_weighted_degrees();\n\n', '')
m('C10', 1, CGC, '_weighted_degrees[node] & kWeightedDegreeMask);', '_weighted_degrees[node]);')
m('C10', 1, CGC, '&_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeMask, __ATOMIC_RELEASE', '&_weighted_degrees[node], _weighted_degrees[node] & kWeightedDegreeLock, __ATOMIC_RELEASE')
m('C10', 1, SGC, '(lowest_degree_in_bucket<NodeID>(_bucket_threshold + 1))', '(lowest_degree_in_bucket<NodeID>(_bucket_threshold))')
m('C10', 1, SGC, '_sparse_offset = _cache_offsets[_bucket_threshold];', '_sparse_offset = 0;')
m('C10', 1, SGC, 'bucket += (node >= _buckets[bucket + 1]);', 'bucket += (node > _buckets[bucket + 1]);')
m('C10', 1, SGC, '(node - _buckets[bucket]) * size', 'node * size')
m('C10', 1, SGC, '_buckets[bucket + 1] = _buckets[bucket] + _graph->bucket_size(bucket);', '_buckets[bucket + 1] = _buckets[bucket] + _graph->bucket_size(bucket + 1);')
m('C10', 1, SGC, '1ull * (node - _node_threshold) * _k + block', '1ull * node * _k + block')
m('C10', 1, SGC, 'static_cast<std::size_t>(_n - _node_threshold) * _k;', 'static_cast<std::size_t>(_n - _node_threshold);')
m('C10', 1, SGC, '    init_buckets();\n', '')
m('C10', 1, SGC, 'return node >= _node_threshold;', 'return node > _node_threshold;')
m('C10', 1, HGC, 'std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k)', 'std::min<EdgeID>(_graph->degree(u), _k)')
m('C10', 1, CHM, 'static_cast<MutType>((entry << key_bits())) >>', '(entry << key_bits()) >>')
m('C10', 1, CGC, 'const unsigned width = compute_entry_width(u, deg < _k);', 'const unsigned width = compute_entry_width(u, false);', 1)
m('C10', 1, CGC, '__atomic_fetch_add(full_table + block_to, weight', '__atomic_fetch_add(full_table + (block_to ^ 1), weight')
m('C10', 1, CGC, 'const int width = compute_entry_width(node, false);', 'const int width = compute_entry_width(node, true);')
m('C10', 1, HGC, 'return _offsets[node + 1] - _offsets[node] == _k;', 'return _offsets[node + 1] - _offsets[node] >= _k / 2;')
# harmless
m('C10', 0, CHM, 'return (from < h_key) + (h_key <= to) + (from > to) >= 2;', 'if (from > to) {\n      return h_key <= to || from < h_key;\n    }\n    return from < h_key && h_key <= to;')
m('C10', 0, CHM, 'return static_cast<MutType>((entry << key_bits())) >> key_bits();', 'const MutType value_only = static_cast<MutType>(entry << key_bits());\n    return value_only >> key_bits();')
m('C10', 0, CHM, '    const auto [pos, entry] = find(key);\n    write_pos(pos, encode_key_value(key, decode_value(entry) + value));\n    return entry == 0;', '    const auto slot = find(key);\n    const MutType old_value = decode_value(slot.second);\n    write_pos(slot.first, encode_key_value(key, old_value + value));\n    return slot.second == 0;')
m('C10', 0, CHM, '      write_pos(start_pos, start_entry - value);', '      write_pos(start_pos, encode_key_value(key, start_value - value));')
m('C10', 0, CHM, '      do {\n        pos = hash(pos + 1);\n        entry = read_pos(pos);\n      } while (entry != 0 && decode_key(entry) != key);', '      while (true) {\n        pos = hash(pos + 1);\n        entry = read_pos(pos);\n        if (entry == 0 || decode_key(entry) == key) {\n          break;\n        }\n      }')
m('C10', 0, CHM, 'return key & _value_mask;', 'return key % capacity();')
m('C10', 0, CHM, '    for (std::size_t i = 0; i < capacity(); ++i) {\n      const auto entry = read_pos(i);\n      if (entry != 0) {\n        lambda(decode_key(entry), decode_value(entry));\n      }\n    }', '    for (std::size_t i = capacity(); i > 0; --i) {\n      const auto entry = read_pos(i - 1);\n      if (entry == 0) {\n        continue;\n      }\n      lambda(decode_key(entry), decode_value(entry));\n    }')
m('C10', 0, CGC, '    const int bits = math::floor_log2(max_value) + 1 + (with_key ? _bits_for_key : 0);\n    const int bytes = (bits + 7) / 8;', '    int bits = math::floor_log2(max_value) + 1;\n    if (with_key) {\n      bits += _bits_for_key;\n    }\n    const int bytes = math::div_ceil(bits, 8);')
m('C10', 0, SGC, 'return node >= _node_threshold;', 'return !(node < _node_threshold);')
m('C10', 0, SGC, '    int bucket = 0;\n    while (node >= _buckets[bucket + 1]) {\n      for (int i = 0; i < 8; ++i) {\n        bucket += (node >= _buckets[bucket + 1]);\n      }\n    }\n    return bucket;', '    int bucket = 0;\n    while (node >= _buckets[bucket + 1]) {\n      ++bucket;\n    }\n    return bucket;')
m('C10', 0, HGC, '_offsets[u + 1] = std::min<EdgeID>(math::ceil2(_graph->degree(u)), _k);', 'const EdgeID capacity = math::ceil2(_graph->degree(u));\n      _offsets[u + 1] = capacity < _k ? capacity : _k;')
m('C10', 0, CGC, '    case 1:\n      return l(reinterpret_cast<const std::uint8_t *>(_gain_cache.data()) + start, size);\n      break;\n', '    case 1: {\n      const auto *bytes = reinterpret_cast<const std::uint8_t *>(_gain_cache.data());\n      return l(bytes + start, size);\n    }\n')
