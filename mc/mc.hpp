// Bounded-exhaustive explorer.
//
// A check is a set of scenarios.  A scenario body is ordinary C++ that drives the real library and
// calls choose(n) wherever the environment, the caller or the scheduler has n possible answers.
// The explorer runs the body once for every sequence of answers (depth-first, simplest answer
// first); nothing is sampled.  Executions are spread over worker processes by their first
// `shard` choices; a worker that dies (sanitizer report, signal) or stops making progress is
// itself an observation: the choice sequence it was executing is replayed alone before it is
// reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
   struct Ctx
   {
      // environment answer in [0,n)
      int choose(int n);
      // n answers of which 0 is the default: any other answer costs one deviation of the budget
      bool verbose = false;
      // describes the step about to be taken (only formatted when a trace is wanted)
      void step(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
      // one checked call of the implementation
      void trans(uint64_t n = 1);
      // an abstract state reached
      void state(uint64_t hash);
      void state(const std::string& s);
      // does not hold: ends the execution.  key identifies the finding (see known_findings.txt)
      [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
      [[noreturn]] void failKey(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
      // same, as a condition
      void require(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
      // ends this execution without a verdict (choice combination outside the alphabet)
      [[noreturn]] void discard();
   };

   struct Options
   {
      int shard = 1;            // number of leading choices that are distributed over the workers
      const char* bound = "";   // the bound, in words
   };

   void scenario(const std::string& name, const Options& o, std::function<void(Ctx&)> body);
   bool thorough();
   inline int tier(int quick, int thor)
   {
      return thorough() ? thor : quick;
   }
   // run in every worker before its first execution / after its last
   void onWorkerStart(std::function<void()> f);

   uint64_t hash(const void* p, size_t n, uint64_t seed = 0xcbf29ce484222325ULL);
   inline uint64_t hash(const std::string& s, uint64_t seed = 0xcbf29ce484222325ULL)
   {
      return hash(s.data(), s.size(), seed);
   }
   std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
   // scratch directory private to this worker (created on first use, removed by the parent)
   const std::string& scratch();

   // Counts the heap blocks allocated since leakStart() that are still alive (AddressSanitizer
   // builds only); the explorer's own allocations are not counted.
   void leakStart();
   void leakStop();
   size_t leakBlocks();
   size_t leakBytes();
   size_t leakPeak(); // most bytes alive at once since leakStart()

   // from now on every execution has to leave as many files and directories open as it found
   void watchHandles();

   struct Assumption
   {
      std::string text;
   };
   void assume(const std::string& text);
}

// defined by the check
extern const char* const kProperty;
void defineScenarios();
