// Stand-in for the optional Mt-KaHyPar C interface, for static analysis only: declarations as far as the adapters use them.
#pragma once
#include <cstddef>
extern "C" {
struct mt_kahypar_context_s;
typedef struct mt_kahypar_context_s mt_kahypar_context_t;
struct mt_kahypar_hypergraph_s;
struct mt_kahypar_partitioned_hypergraph_s;
typedef enum { STATIC_GRAPH, DYNAMIC_GRAPH, STATIC_HYPERGRAPH, DYNAMIC_HYPERGRAPH, NULLPTR_HYPERGRAPH } mt_kahypar_hypergraph_type_t;
typedef struct { mt_kahypar_hypergraph_s *hypergraph; mt_kahypar_hypergraph_type_t type; } mt_kahypar_hypergraph_t;
typedef struct { mt_kahypar_partitioned_hypergraph_s *partitioned_hg; int type; } mt_kahypar_partitioned_hypergraph_t;
typedef unsigned long int mt_kahypar_hypernode_id_t;
typedef unsigned long int mt_kahypar_hyperedge_id_t;
typedef int mt_kahypar_hypernode_weight_t;
typedef int mt_kahypar_hyperedge_weight_t;
typedef int mt_kahypar_partition_id_t;
typedef enum { NUM_BLOCKS, EPSILON, OBJECTIVE, NUM_VCYCLES, VERBOSE } mt_kahypar_context_parameter_type_t;
typedef enum { CUT, KM1, SOED } mt_kahypar_objective_t;
typedef enum { DETERMINISTIC, LARGE_K, DEFAULT, QUALITY, HIGHEST_QUALITY } mt_kahypar_preset_type_t;
mt_kahypar_context_t *mt_kahypar_context_new();
void mt_kahypar_free_context(mt_kahypar_context_t *);
void mt_kahypar_configure_context_from_file(mt_kahypar_context_t *, const char *);
void mt_kahypar_load_preset(mt_kahypar_context_t *, const mt_kahypar_preset_type_t);
int mt_kahypar_set_context_parameter(mt_kahypar_context_t *, const mt_kahypar_context_parameter_type_t, const char *);
void mt_kahypar_set_partitioning_parameters(mt_kahypar_context_t *, const mt_kahypar_partition_id_t, const double, const mt_kahypar_objective_t);
void mt_kahypar_set_seed(const std::size_t);
void mt_kahypar_set_individual_target_block_weights(mt_kahypar_context_t *, const mt_kahypar_partition_id_t, const mt_kahypar_hypernode_weight_t *);
void mt_kahypar_initialize_thread_pool(const std::size_t, const bool);
mt_kahypar_hypergraph_t mt_kahypar_create_graph(const mt_kahypar_preset_type_t, const mt_kahypar_hypernode_id_t, const mt_kahypar_hyperedge_id_t,
    const mt_kahypar_hypernode_id_t *, const mt_kahypar_hyperedge_weight_t *, const mt_kahypar_hypernode_weight_t *);
mt_kahypar_partitioned_hypergraph_t mt_kahypar_create_partitioned_hypergraph(mt_kahypar_hypergraph_t, const mt_kahypar_preset_type_t,
    const mt_kahypar_partition_id_t, const mt_kahypar_partition_id_t *);
mt_kahypar_partitioned_hypergraph_t mt_kahypar_partition(mt_kahypar_hypergraph_t, mt_kahypar_context_t *);
void mt_kahypar_improve_partition(mt_kahypar_partitioned_hypergraph_t, mt_kahypar_context_t *, const std::size_t);
void mt_kahypar_get_partition(const mt_kahypar_partitioned_hypergraph_t, mt_kahypar_partition_id_t *);
void mt_kahypar_free_hypergraph(mt_kahypar_hypergraph_t);
void mt_kahypar_free_partitioned_hypergraph(mt_kahypar_partitioned_hypergraph_t);
}
