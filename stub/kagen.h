// Declarations standing in for the (absent) KaGen submodule, for static analysis only.
#pragma once
#include <cstdint>
#include <memory>
#include <ostream>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <mpi.h>
namespace kagen {
using SInt = unsigned long;
using SSInt = long;
using PEID = int;
enum class FileFormat { EXTENSION, METIS, PARHIP, PLAIN_EDGELIST };
enum class GraphDistribution { BALANCE_VERTICES, BALANCE_EDGES, ROOT };
std::unordered_map<std::string, FileFormat> GetInputFormatMap();
std::unordered_map<std::string, GraphDistribution> GetGraphDistributionMap();
std::ostream &operator<<(std::ostream &out, FileFormat f);
std::ostream &operator<<(std::ostream &out, GraphDistribution f);
using VertexRange = std::pair<SInt, SInt>;
struct Graph {
  VertexRange vertex_range;
  std::vector<SInt> xadj, adjncy;
  std::vector<SSInt> vertex_weights, edge_weights;
  template <typename T = SInt> std::vector<T> TakeXadj();
  template <typename T = SInt> std::vector<T> TakeAdjncy();
  template <typename T = SSInt> std::vector<T> TakeVertexWeights();
  template <typename T = SSInt> std::vector<T> TakeEdgeWeights();
  SInt NumberOfLocalVertices() const;
  SInt NumberOfLocalEdges() const;
};
class KaGen {
public:
  KaGen(MPI_Comm comm);
  void UseCSRRepresentation();
  void EnableUndirectedGraphVerification();
  void EnableBasicStatistics();
  void EnableAdvancedStatistics();
  void EnableOutput(bool header);
  void SetSeed(int seed);
  Graph GenerateFromOptionString(const std::string &options);
  Graph ReadFromFile(const std::string &filename, FileFormat format, GraphDistribution distribution);
};
template <typename T>
std::vector<T> BuildVertexDistribution(const Graph &graph, MPI_Datatype idx_mpi_t, MPI_Comm comm);
struct StreamedGraph {
  template <typename F> void ForEachEdge(F &&f) const {
    SInt a = 0, b = 0;
    f(a, b);
  }
};
class sKaGen {
public:
  sKaGen(const std::string &options, PEID chunks_per_pe, MPI_Comm comm);
  void Initialize();
  VertexRange EstimateVertexRange(PEID pe = -1) const;
  bool Continue() const;
  StreamedGraph Next();
};
} // namespace kagen
