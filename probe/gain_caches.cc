// instantiates every gain cache and delta gain cache, including those that are only reachable in experimental builds
#include <tbb/parallel_for.h>

#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/delta_gain_caches.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"

using namespace kaminpar;
using namespace kaminpar::shm;

template <typename Cache> void cache(const Context &ctx, const CSRGraph &graph, const PartitionedGraph &p, DeltaPartitionedGraph &d) {
  Cache c(ctx, p.n(), p.k());
  c.initialize(graph, p);
  tbb::parallel_for<NodeID>(0, p.n(), [&](const NodeID u) {
    (void)c.is_border_node(u, 0);
    (void)c.gain(u, 0, 1), (void)c.conn(u, 1), (void)c.gain(u, 0, std::pair<BlockID, BlockID>{1, 2});
    c.gains(u, 0, [&](const BlockID, auto &&gain) { (void)gain(); });
    c.move(u, 0, 1);
  });
  typename Cache::DeltaGainCache delta(c, d);
  (void)delta.gain(0, 0, 1), (void)delta.conn(0, 1), (void)delta.gain(0, 0, std::pair<BlockID, BlockID>{1, 2});
  delta.gains(0, 0, [&](const BlockID, auto &&gain) { (void)gain(); });
  delta.move(0, 0, 1);
  delta.clear();
  c.print_statistics();
  c.free();
}

void probe_caches(const Context &ctx, const CSRGraph &graph, const PartitionedGraph &p, DeltaPartitionedGraph &d) {
  cache<NormalDenseGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<LargeKDenseGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<NormalHashingGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<LargeKHashingGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<NormalSparseGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<LargeKSparseGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<NormalCompactHashingGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<LargeKCompactHashingGainCache<CSRGraph>>(ctx, graph, p, d);
  cache<NormalOnTheFlyGainCache<CSRGraph>>(ctx, graph, p, d);
}
