// Exhaustive bounded explorer: executions of the real code, driven by choice points, enumerated completely.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace vf {

// --- choice points ---------------------------------------------------------------------------------------------
// pick(n): one of 0..n-1; the explorer covers every value.
int pick(int n, const char *label = "");
// dev(n): as pick, but a non-zero answer is a deviation from the default; executions with more than
// Options::devbound deviations are not generated.
int dev(int n, const char *label = "");
// visited-state pruning: call after each step with a hash of everything that determines the future (including the
// remaining bound).  Returns false if an execution already explored (or is exploring) that state: stop then.
bool fresh(uint64_t h);
// count a distinct state without pruning
void state(uint64_t h);
// count transitions (operations applied to the real code)
void step(int n = 1);
// count executions that exercised something beyond the trivial; h distinguishes them
void nontrivial(uint64_t h);
// named coverage counters
void count(const char *name, long n = 1);

// --- failing ---------------------------------------------------------------------------------------------------
struct Failure { std::string key, msg; };
// key: short, stable identification of the defect (input class / call), no addresses
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// trace line for the replay file (cheap when not tracing)
extern bool tracing;
void trace_line(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define VF_TRACE(...) do { if (vf::tracing) vf::trace_line(__VA_ARGS__); } while (0)
#define VF_CHECK(cond, key, ...) do { if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)

// --- running ---------------------------------------------------------------------------------------------------
struct Options {
  const char *property = "";
  int devbound = 0;
  double run_timeout = 20;      // seconds without finishing one execution = suspected hang
  long max_runs_per_worker = 200000; // restart a worker after that many (bounds leaked memory)
  std::function<void()> run;    // one execution
  std::function<void()> worker_init; // once per worker process
};
int main(int argc, char **argv, Options &o);
extern bool thorough;
extern bool replaying;
std::string arg(const char *name, const char *dflt = "");  // --name=value given by the driver
std::string scratch();           // private scratch directory of this worker (created, removed at the end)

// --- for multi-process executions (simulated MPI) ----------------------------------------------------------------
// in a forked child of the worker: record a failure into the shared run state and _exit
void child_fail(const char *key, const char *msg);
bool failed();                   // has some process of this execution recorded a failure
void rethrow();                  // worker side: throw the recorded failure
bool in_child();
void set_in_child();

// --- hashing -----------------------------------------------------------------------------------------------------
struct H {
  uint64_t h = 0xcbf29ce484222325ull;
  void add(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
  void add(const std::string &s) { for (char c : s) add((uint64_t)(unsigned char)c); add(s.size()); }
};
inline uint64_t hash_str(const std::string &s) { H h; h.add(s); return h.h; }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}
