// Simulated message passing: see sim.cpp
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "mpi.h"
namespace sim {
struct Mode {
  bool sync = false;     // senders wait for the receiver (else messages are buffered)
  bool late = false;     // data of non-blocking receives arrives when it is waited for (else as soon as it was sent)
  bool loose = false;    // collectives return as early as the standard allows (else they synchronise)
  int order = 0;         // 0: lowest rank first, 1: highest rank first
  bool explore = false;  // every send, receive, test and call is a deviation point (vf::dev)
};
// runs fn(rank) as nranks processes under the scheduler; returns each rank's report() or throws vf::Failure
std::vector<std::string> run(int nranks, Mode m, std::function<void(int)> fn);
void report(const std::string &s);      // by a rank, appended
extern std::vector<int> answer;         // what the partitioner answers
struct Graph { std::vector<int> xadj, adj; int nparts = 0; std::vector<double> geom; int ndim = 0; bool seen = false; };
extern Graph graph;                     // what it was given (in the calling rank)
int nranks(); int rank();
extern long calls;                      // message passing calls in the last run, all ranks
extern bool zoltan_all;                 // Zoltan lists also objects that stay
}
