// instantiates every implementation of the sparse collectives
#include <mpi.h>

#include "kaminpar-mpi/sparse_allreduce.h"
#include "kaminpar-mpi/sparse_alltoall.h"
#include "kaminpar-mpi/wrapper.h"

#include "kaminpar-common/datastructures/noinit_vector.h"

using namespace kaminpar;

struct ProbeMessage {
  std::uint32_t node;
  std::int64_t weight;
};

void probe_allreduce(std::vector<std::int64_t> &buffer) {
  mpi::inplace_sparse_allreduce(mpi::tag::mpi_allreduce, buffer, buffer.size(), MPI_SUM, MPI_COMM_WORLD);
  mpi::inplace_sparse_allreduce(mpi::tag::doubling_allreduce, buffer, buffer.size(), MPI_SUM, MPI_COMM_WORLD);
}

template <typename Tag> void probe_alltoall(Tag tag, std::int64_t &sum) {
  using Buffer = NoinitVector<ProbeMessage>;
  std::vector<Buffer> send(mpi::get_comm_size(MPI_COMM_WORLD));
  mpi::sparse_alltoall<ProbeMessage, Buffer>(tag, send, [&](const Buffer &recv, const mpi::PEID pe) { sum += recv.size() + pe; }, MPI_COMM_WORLD);
}

void probe_alltoalls(std::int64_t &sum) {
  probe_alltoall(mpi::tag::grid, sum);
  probe_alltoall(mpi::tag::alltoallv, sum);
  probe_alltoall(mpi::tag::complete_send_recv, sum);
}
